"""msibuild command lines against a model of their options."""
import os, re

from hypothesis import strategies as st

from ..core import Prop, Violation, case_dir
from .. import hist, idt, model as M, msifmt, suminfo, tools
from . import p05, p07

DEFAULTS = {2: "Installation Database", 5: "Installer, MSI", 7: ";1033", 18: "libmsi msibuild", 14: 200, 15: 0, 16: 0}


def literal(op):
    """The operation with literals only, or None if a value has none."""
    if op["op"] == "insert":
        cols, vals = [], []
        for c, v in zip(op["cols"], op["vals"]):
            if v is None or isinstance(v, list):
                continue
            if M.lit(v) is None or isinstance(v, str) and set(v) & set("\0\x1a"):
                return None
            cols.append(c)
            vals.append(v)
        return dict(op, cols=cols, vals=vals, par=[False] * len(vals), temp=False) if cols else None
    return op


def nolit(c):
    """Conditions and SET clauses with parameters have no literal form."""
    if c is None:
        return False
    if c[0] in ("and", "or"):
        return nolit(c[1]) or nolit(c[2])
    if c[0] == "cmp" and c[3][0] != "col":
        v = M.dec_val(c[3][1])
        c[3][0] = "lit"
        return v is None or M.lit(v) is None
    return False


@st.composite
def sqlop(draw, db):
    """An operation that can be written as one statement without parameters."""
    names = sorted(n for n, t in db.t.items() if not M.has_binary(t))
    k = draw(st.sampled_from(["create", "insert", "insert", "insert", "insert", "update", "delete", "addcol", "drop"])) if names else "create"
    if k == "create":
        if len(db.t) > 4:
            return None
        nm = draw(st.one_of(M.tname(), st.sampled_from(["Insert", "Select", "Create"])).filter(lambda s: s not in db.t))
        return {"op": "create", "t": nm, "cols": [c.json() for c in draw(M.columns(binary=False))]}
    t = db.t[draw(st.sampled_from(names))]
    if k == "insert":
        txt = st.one_of(M.text(), st.sampled_from(["a;b", "x; INSERT INTO", "SELECT", "--", "`", "a\nb", "\\", "\\n", "\"", "(", ",", "a\tb"]))
        op = literal(draw(hist.insert_op(t, txt)))
        if op is None:
            return None
        need = {c.name for c in t.cols if c.key or not c.null}
        return op if need <= set(op["cols"]) else None
    if k == "update":
        op = draw(hist.update_op(t, M.text("ascii")))
        if op is None or nolit(op.get("where")):
            return None
        sets = [[c, v, False] for c, v, p in op["set"] if M.dec_val(v) is not None and M.lit(M.dec_val(v)) is not None]
        return dict(op, set=sets) if sets else None
    if k == "delete":
        op = {"op": "delete", "t": t.name, "where": draw(hist.where_op(t))}
        return None if nolit(op["where"]) else op
    if k == "addcol":
        if len(t.cols) >= 30:
            return None
        c = draw(M.columns(maxcols=1, binary=False))[0]
        c.key, c.null = False, True
        return {"op": "addcol", "t": t.name, "col": c.json()}
    return {"op": "drop", "t": t.name}


@st.composite
def group(draw, db, streams, allowfail):
    """One option with its arguments."""
    k = draw(st.sampled_from(["q", "q", "q", "i", "a", "a", "s"]))
    if k == "q":
        args = []
        for _ in range(draw(st.integers(1, 3))):
            arg = []
            for _ in range(draw(st.integers(1, 4))):
                op = draw(sqlop(db))
                if op is None:
                    continue
                _, params, ok = db.copy().apply(op)
                if params or not ok and not allowfail:
                    continue
                db.apply(op)
                arg.append([op, draw(st.sampled_from(["", " ", "\n", ";", "; ", ";\n", " ; ", ";;", "\n\n  "])), draw(st.sampled_from(["", "", " ", "\n\t"]))])
            if arg:
                # without ';' or white space two statements are not separate
                for i, a in enumerate(arg[:-1]):
                    if a[1] == "":
                        a[1] = ";"
                args.append(arg)
        return {"k": "q", "args": args} if args else None
    if k == "i":
        files = []
        for _ in range(draw(st.integers(1, 2))):
            ops = draw(idt.database(maxt=1, ctl=True, maxrows=4))
            m = M.DB()
            for op in ops:
                m.apply(op)
            t = next(iter(m.t.values()))
            if t.name in db.t and (M.has_binary(t) or [c.json() for c in t.cols] != [c.json() for c in db.t[t.name].cols]):
                continue
            if M.has_binary(t) and any(f["names"] for f in files):
                continue
            db.t[t.name] = t
            files.append({"ops": ops, "names": M.has_binary(t)})
        return {"k": "i", "files": files} if files else None
    if k == "a":
        n = draw(p07.names().filter(lambda n: not n.startswith("-")))
        b = draw(p07.blob())
        streams[n] = b
        return {"k": "a", "n": n, "b": b.hex()}
    txt = st.one_of(st.sampled_from(["", "x", "Intel;1033", "My App", "{12345678-1234-1234-1234-123456789012}", "é日本"]), st.text(M.ASCII + M.LATIN, max_size=12).filter(lambda s: not s.startswith("-")))
    return {"k": "s", "v": [draw(txt) for _ in range(draw(st.integers(1, 4)))]}


BAD = ["sql", "nofile", "badidt", "nostream", "unknown", "missing", "stray", "dup", "longopt"]


@st.composite
def cases(draw):
    db, streams = M.DB(), {}
    runs = []
    for i in range(draw(st.integers(1, 3))):
        groups = []
        for _ in range(draw(st.integers(1, 4))):
            g = draw(group(db, streams, False))
            if g:
                groups.append(g)
        if not groups:
            continue
        fail = None
        if i and draw(st.integers(0, 1)):
            fail = [draw(st.integers(0, len(groups))), draw(st.sampled_from(BAD))]
        runs.append({"groups": groups, "first": draw(st.booleans()), "fail": fail})
        if fail:
            db, streams = state(runs)[:2]
    return runs


def state(runs):
    """The model after the runs."""
    db, streams, si = M.DB(), {}, {}
    for n, r in enumerate(runs):
        if n == 0:
            si = dict(DEFAULTS)
        if r["fail"]:
            continue
        for g in r["groups"]:
            if g["k"] == "q":
                for arg in g["args"]:
                    for op, sep, lead in arg:
                        db.apply(op)
            elif g["k"] == "i":
                for f in g["files"]:
                    m = M.DB()
                    for op in f["ops"]:
                        m.apply(op)
                    t = next(iter(m.t.values()))
                    db.t[t.name] = t
            elif g["k"] == "a":
                streams[g["n"]] = bytes.fromhex(g["b"])
            else:
                v = g["v"]
                for pid, x in zip((3, 4, 7, 9), v):
                    si[pid] = x
    return db, streams, si


class P12(Prop):
    id = "P12"
    quick = 130
    thorough = 1800
    rule = ("a case is up to three msibuild command lines on one file, each a sequence of -q, -i, -a and -s options with generated arguments, some with a failing option at a generated place; "
            "non-trivial: at least two options took effect")
    strategy = staticmethod(cases)

    def shrink(self, case):
        for i in range(len(case)):
            yield case[:i] + case[i + 1:]
            for j in range(len(case[i]["groups"])):
                r = dict(case[i], groups=case[i]["groups"][:j] + case[i]["groups"][j + 1:])
                if r["groups"] or r["fail"]:
                    if r["fail"]:
                        r["fail"] = [min(r["fail"][0], len(r["groups"])), r["fail"][1]]
                    yield case[:i] + [r] + case[i + 1:]

    def run(self, case, env):
        d = case_dir(env)
        path = os.path.join(d, "p.msi")
        os.mkdir(os.path.join(d, "in"))
        nfile = 0
        labels, eff = set(), 0
        for i, r in enumerate(case):
            if r["fail"] and not os.path.exists(path):
                continue
            args = []
            made = M.DB()
            before = state(case[:i])
            for gi, g in enumerate(r["groups"] + [None]):
                if r["fail"] and gi == r["fail"][0]:
                    b = r["fail"][1]
                    labels.add("fail-" + b)
                    if b == "sql":
                        a = ["-q", "CREATE TABLE `zz` (`a` SHORT NOT NULL PRIMARY KEY `a`); INSERT INTO `nosuch` (`a`) VALUES (1)"]
                    elif b == "dup":
                        a = ["-q", "CREATE TABLE `zz` (`a` SHORT NOT NULL PRIMARY KEY `a`)", "INSERT INTO `zz` (`a`) VALUES (1)", "INSERT INTO `zz` (`a`) VALUES (1)"]
                    elif b == "nofile":
                        a = ["-i", os.path.join(d, "none.idt")]
                    elif b == "badidt":
                        fn = os.path.join(d, "in", "bad%d.idt" % i)
                        with open(fn, "w") as f:
                            f.write("a\tb\r\ni2\ts9\r\nBad\ta\r\n1\tx\r\n1\ty\r\n")
                        a = ["-i", fn]
                    elif b == "nostream":
                        a = ["-a", "x", os.path.join(d, "none.bin")]
                    elif b == "unknown":
                        a = ["-z", "x"]
                    elif b == "longopt":
                        a = ["-qq", "x"]
                    elif b == "stray":
                        # an argument where an option must be
                        a = ["-a", "strayx", path, "stray", "y"]
                    else:
                        a = None
                    if a is None:
                        args += ["-a", "strayx"]
                        break
                    args += a
                if g is None:
                    break
                labels.add(g["k"])
                eff += not r["fail"]
                if g["k"] == "q":
                    args.append("-q")
                    for arg in g["args"]:
                        s = ""
                        for op, sep, lead in arg:
                            sql, params, ok = before[0].apply(op)
                            s += lead + sql + sep
                        args.append(s)
                        labels.add("joined" if len(arg) > 1 else "single")
                elif g["k"] == "i":
                    args.append("-i")
                    for f in g["files"]:
                        m = M.DB()
                        for op in f["ops"]:
                            m.apply(op)
                        t = next(iter(m.t.values()))
                        before[0].t[t.name] = t
                        dd = os.path.join(d, "in", "%d" % nfile)
                        os.mkdir(dd)
                        fn = os.path.join(dd, "t.idt")
                        nfile += 1
                        with open(fn, "wb") as fo:
                            fo.write(idt.write(t, None, d))
                        args.append(fn)
                elif g["k"] == "a":
                    fn = os.path.join(d, "in", "s%d" % nfile)
                    nfile += 1
                    with open(fn, "wb") as fo:
                        fo.write(bytes.fromhex(g["b"]))
                    args += ["-a", g["n"], fn]
                else:
                    args += ["-s"] + g["v"]
            old = open(path, "rb").read() if os.path.exists(path) else None
            listing = sorted(os.listdir(d))
            cmd = [env.p.msibuild] + ([args[0], path] + args[1:] if r["first"] and args else [path] + args)
            res = tools.run(cmd, cwd=d)
            if r["fail"]:
                if res.rc == 0:
                    raise Violation("%r reports success" % cmd[1:])
                if open(path, "rb").read() != old:
                    raise Violation("%r failed but changed the file" % cmd[1:])
                if sorted(os.listdir(d)) != listing:
                    raise Violation("%r failed and left %s" % (cmd[1:], sorted(set(os.listdir(d)) - set(listing))))
                continue
            if res.rc:
                raise Violation("%r failed: %s" % (cmd[1:], res.err[:500]))
            if sorted(set(os.listdir(d)) - set(listing) - {"p.msi"}):
                raise Violation("%r left %s" % (cmd[1:], sorted(set(os.listdir(d)) - set(listing))))
            db, streams, si = state(case[:i + 1])
            f = p05.parse(path, "after %r" % cmd[1:])
            p05.compare(db, f, "after %r" % cmd[1:])
            p05.strings_ok(f, "after %r" % cmd[1:])
            for n, b in streams.items():
                if f.streams.get(n) != b:
                    raise Violation("after %r: stream %r is %s, expected %s" % (cmd[1:], n, hist.short(f.streams.get(n)), hist.short(b)))
            b = f.streams.get(msifmt.SUMMARY)
            got = suminfo.read(b, "after %r" % cmd[1:]) if b else None
            if got and 9 not in si:
                if not re.match(r"^\{[0-9A-F]{8}(-[0-9A-F]{4}){3}-[0-9A-F]{12}\}$", got.pop(9, "")):
                    raise Violation("after %r: no proper package code" % cmd[1:])
            if got != si:
                raise Violation("after %r: summary information %r, expected %r" % (cmd[1:], got, si))
        return eff >= 2, labels


PROP = P12
