from hypothesis import strategies as st

from ..core import Prop, Violation
from .. import cfb, hist, model as M, msifmt


def compare(db, f, what):
    if set(f.tables) != set(db.t):
        raise Violation("%s: the file has tables %s, expected %s" % (what, sorted(f.tables), sorted(db.t)))
    for n, t in db.t.items():
        cols, rows = f.tables[n]
        want = [(c.name, msifmt.coltype(c)) for c in t.cols]
        # the defining bit of strings and shorts may be set or not
        if [(a, hex(b)) for a, b in cols] != [(a, hex(b)) for a, b in want]:
            raise Violation("%s: table %s has columns %r, expected %r" % (what, n, cols, want))
        exp = []
        for r in t.rows:
            exp.append([("bin",) if isinstance(v, bytes) else v for v in r])
        got = [[(("bin",) if v[1] else None) if isinstance(v, tuple) else v for v in r] for r in rows]
        if M.multiset(got) != M.multiset(exp):
            raise Violation("%s: table %s holds %s, expected %s" % (what, n, hist.short(got), hist.short(exp)))
        for r in t.rows:
            for c, v in zip(t.cols, r):
                if isinstance(v, bytes):
                    sn = M.stream_name(t, r)
                    if f.streams.get(sn) != v:
                        raise Violation("%s: stream %r holds %r, expected %r" % (what, sn, f.streams.get(sn), v))


def strings_ok(f, what):
    for i, u in enumerate(f.uses):
        if u and f.refs[i] < min(u, 65535):
            raise Violation("%s: string %d %r is used %d times, its reference count is %d" % (what, i, f.strings[i], u, f.refs[i]))
    if f.duplicates:
        raise Violation("%s: %d strings are stored twice" % (what, f.duplicates))


def parse(path, what):
    data = open(path, "rb").read()
    try:
        return msifmt.read(data)
    except cfb.Bad as e:
        raise Violation("%s: not a well-formed MSI database: %s" % (what, e))


def ever(case):
    """Streams of binary columns of all rows there ever were: that of a deleted row may stay in the file."""
    db, saved, out = M.DB(), M.DB(), set()
    for op in case:
        if op["op"] in ("commit", "reopen"):
            db = db.committed()
        elif hasattr(db, "op_" + op["op"]):
            db.apply(op)
            if op["op"] == "insert" and M.has_binary(db.t[op["t"]]):
                out |= {M.stream_name(db.t[op["t"]], r) for r in db.t[op["t"]].rows}
    return out


class P05(Prop):
    id = "P05"
    quick = 300
    thorough = 6000
    rule = ("a case is a generated history of statements, binary rows, commits and reopens; the committed file is parsed by an independent "
            "implementation of the compound file, string pool and table formats; non-trivial: at least one table has rows in the file")

    def strategy(self):
        h = hist.history(w={"reopen": 3, "commit": 2, "select": 0}, binary=True, longs=False)
        return st.one_of(*[h] * 7, hist.history(w={"reopen": 4, "commit": 2, "bulk": 3, "create": 1, "select": 0}, binary=True, maxops=10, maxtables=2))

    def fixed_cases(self):
        cols = [["k", "i4", 0, False, False, True], ["v", "s", 0, True, False, False], ["w", "s", 0, True, True, False]]
        out = []
        for n in (0xfffe, 0xffff, 0x10000, 0x10001, 0x1ffff, 0x20000, 70000):
            s = "".join(chr(97 + (i * 7) % 26) for i in range(1000)) * (n // 1000 + 1)
            out.append([{"op": "create", "t": "T", "cols": cols}] + [
                {"op": "insert", "t": "T", "cols": ["k", "v", "w"], "vals": [i, v, w], "par": [False, True, True], "temp": False}
                for i, v, w in ((1, s[:n], "a"), (2, s[:n], "b"), (3, "z", s[:n]), (4, s[:n - 1] + "!", None))] + [{"op": "reopen"}])
        return out + hist.strings_65536()

    def run(self, case, env):
        labels, db, path = hist.run_history(case, env, dump_every=False)
        f = parse(path, "committed file")
        compare(db, f, "committed file")
        strings_ok(f, "committed file")
        extra = set(f.streams) - {msifmt.SUMMARY} - ever(case)
        if extra:
            raise Violation("unexpected streams %s" % sorted(extra))
        if f.storages:
            raise Violation("unexpected storages")
        return any(t.rows for t in db.t.values()), labels

PROP = P05
