"""msidump writes all tables and streams below its directory and nothing else, and a dump rebuilds the database."""
import os, shutil

from hypothesis import strategies as st

from ..core import Prop, Violation, case_dir
from ..driver import X
from .. import hist, idt, model as M, tools
from . import p05

TN = ["A B", "x*", "[a-z]", "a?b", "-n", " lead", "trail ", "../up", "a/b", "$(x)", "a;b", "~", "é", "{a,b}", "-e", "a\tb", "!x"]
SN = st.one_of(st.sampled_from(["s", "Binary.x", "two words", "*", "?", "-s", "a/b", "../../up", "$HOME", "`x`", "日本", "\\n", "a\\", "%s", "it's", "\"q\"", " x", "x ", "#", "~", "a  b", "a\tb", "[a]", "-", "--", "{a,b}"]),
               st.text("ab *?/\\'\"$-é日", min_size=1, max_size=8)).filter(lambda s: s not in (".", "..") and s.isprintable() or "\t" in s)
BLOB = st.one_of(st.binary(min_size=1, max_size=40), st.integers(1, 3).map(lambda n: bytes(range(256)) * (n * 17)))


@st.composite
def databases(draw, binary=True, names=TN):
    db = M.DB()
    ops, claims = [], {}
    txt = st.one_of(M.text(), M.text(), idt.CTL)
    for i in range(draw(st.integers(0, 3))):
        nm = draw(st.one_of(M.tname(), st.sampled_from(names)).filter(lambda s: s not in db.t))
        op = {"op": "create", "t": nm, "cols": [c.json() for c in draw(M.columns(binary=binary))]}
        db.apply(op)
        ops.append(op)
        t = db.t[nm]
        for j in range(draw(st.integers(0, 5))):
            op = draw(hist.insert_op(t, txt))
            if op["temp"] or M.has_binary(t) and not hist.claim_stream(claims, t, op):
                continue
            db.apply(op)
            if idt.ambiguous(t):
                t.rows.pop()
                t.temp.pop()
                continue
            ops.append(op)
    return ops


@st.composite
def cases(draw):
    ops = draw(databases())
    streams = {n: draw(BLOB).hex() for n in draw(st.lists(SN, max_size=4, unique=True))}
    return {"ops": ops, "streams": streams, "flags": draw(st.sampled_from([[], ["-t"], ["-s"], ["-t", "-s"], ["-s", "-t"], ["--tables", "--streams"], ["-t", "-s", "-S"]])),
            "dir": draw(st.sampled_from([None, "rel", "abs", "space", "dash", "cdpath"])), "file": draw(st.sampled_from(["rel", "abs", "space"])),
            "bad": draw(st.sampled_from([None] * 12 + ["missing", "dir", "nomsi", "nodest", "noarg"]))}


def build(env, ops, streams, path, cp=0):
    m = M.DB()
    sc = hist.Script()
    sc.add(["open", "0", X(path), "2", "N"], hist.expect_ok)
    for op in ops:
        sql, params, ok = m.apply(op)
        sc.query(0, sql, params, hist.expect_ok if ok else hist.expect_fail)
    for n, b in streams.items():
        sc.query(0, "INSERT INTO `_Streams` (`Name`, `Data`) VALUES (?, ?)", [n, bytes.fromhex(b)], hist.expect_ok)
    sc.add(["commit", "0"], hist.expect_ok)
    sc.add(["close", "0"])
    sc.run(env.drv)
    return m


def files(top):
    out = {}
    for r, ds, fs in os.walk(top):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, top)] = open(p, "rb").read()
    return out


def scripts(env):
    """The build leaves the scripts without the permission to run them."""
    b = os.path.join(env.tmp, "bin")
    if not os.path.isdir(b):
        os.makedirs(b)
        for n in ("msidump", "msidiff"):
            shutil.copyfile(os.path.join(os.path.dirname(env.p.msiinfo), n), os.path.join(b, n))
            os.chmod(os.path.join(b, n), 0o755)
    return b


def path_env(env, **kw):
    e = {"PATH": scripts(env) + ":" + os.path.dirname(env.p.msiinfo) + ":/usr/local/bin:/usr/bin:/bin"}
    e.update(kw)
    return e


class P26(Prop):
    id = "P26"
    quick = 60
    thorough = 1200
    rule = ("a case is a generated database with tables and streams, some with blanks, wildcards, slashes or quotes in their names, dumped by msidump (tables, streams or both; into the current, a relative or absolute directory); "
            "the files are read by an independent reader and the database is rebuilt from them by msibuild; non-trivial: at least two tables or streams of the database were dumped")
    strategy = staticmethod(cases)

    def shrink(self, case):
        for i in range(len(case["ops"]) - 1, -1, -1):
            ops = case["ops"][:i] + case["ops"][i + 1:]
            names = [o["t"] for o in ops if o["op"] == "create"]
            if all(o["t"] in names for o in ops):
                yield dict(case, ops=ops)
        for n in case["streams"]:
            yield dict(case, streams={k: v for k, v in case["streams"].items() if k != n})
        for k, v in (("dir", None), ("file", "abs")):
            if case[k] != v:
                yield dict(case, **{k: v})

    def run(self, case, env):
        top = os.path.realpath(case_dir(env))
        cwd = os.path.join(top, "a", "b", "c", "d")
        os.makedirs(cwd)
        name = "my file.msi" if case["file"] == "space" else "x.msi"
        path = os.path.join(cwd, name)
        db = build(env, case["ops"], case["streams"], path)
        dest = {None: ".", "rel": "out", "abs": os.path.join(cwd, "out"), "space": "o u t", "dash": "-out", "cdpath": "out"}[case["dir"]]
        absdest = os.path.join(cwd, dest)
        e = path_env(env)
        if case["dir"] == "cdpath":
            os.makedirs(os.path.join(top, "other", "out"))
            e["CDPATH"] = os.path.join(top, "other")
        os.makedirs(absdest, exist_ok=True)
        arg = path if case["file"] == "abs" else name
        bad = case["bad"]
        if bad == "missing":
            arg = "nosuch.msi"
        elif bad == "dir":
            arg = absdest
        elif bad == "nomsi":
            open(path, "wb").write(b"this is no database")
        elif bad == "nodest":
            dest = "nosuch/dir"
        cmd = [os.path.join(scripts(env), "msidump")] + case["flags"]
        if case["dir"] or bad == "nodest":
            cmd += ["-d", dest] if len(case["flags"]) != 2 else ["--directory", dest]
        if bad != "noarg":
            cmd.append(arg)
        before = files(top)
        r = tools.run(cmd, cwd=cwd, env=e)
        after = files(top)
        rel = os.path.relpath(absdest, top)
        new = {k: v for k, v in after.items() if before.get(k) != v}
        if [k for k in before if k not in after]:
            raise Violation("msidump removed %r" % [k for k in before if k not in after])
        labels = {str(case["dir"]), "bad" if bad else "good"} | set(case["flags"])
        if bad:
            if r.rc == 0:
                raise Violation("msidump succeeds (%s): %r" % (bad, r.out))
            if bad != "nomsi" and new:
                raise Violation("failing msidump writes %r" % sorted(new))
            return True, labels
        if r.rc:
            raise Violation("msidump fails (%d): %s" % (r.rc, r.err.decode("utf-8", "replace")[-400:]))
        out = [k for k in new if rel != "." and not k.startswith(rel + "/")]
        if out:
            raise Violation("msidump wrote outside of its directory: %r" % sorted(out))
        got = {os.path.relpath(k, rel): v for k, v in new.items()}
        fn = lambda n: n.replace("/", "%2F")
        flags = set(case["flags"])
        tabs = not flags or bool(flags & {"-t", "--tables"})
        strs = bool(flags & {"-s", "--streams"})
        idts = []
        if tabs:
            for n in ["_SummaryInformation", "_ForceCodepage"]:
                if n + ".idt" not in got:
                    raise Violation("%s is not dumped" % n)
                got.pop(n + ".idt")
                idts.append(n + ".idt")
            for n in sorted(db.t):
                f = fn(n) + ".idt"
                if f not in got:
                    raise Violation("table %r is not dumped to %r but %r" % (n, f, sorted(got)))
                if "\t" not in n:
                    idt.check(db.t[n], got[f], "dump of %s" % n, absdest)
                got.pop(f)
                idts.append(f)
                for g in [g for g in got if g.startswith(fn(n) + "/")]:
                    if not M.has_binary(db.t[n]):
                        break
                    got.pop(g)
        streams = {n: bytes.fromhex(b) for n, b in case["streams"].items()}
        want = dict(streams)
        for t in db.t.values():
            for row in t.rows:
                for v in row:
                    if isinstance(v, bytes):
                        want[M.stream_name(t, row)] = v
        if strs:
            for n, b in want.items():
                f = "_Streams/" + fn(n)
                if got.pop(f, None) != b:
                    raise Violation("stream %r is not dumped to %r (others: %r)" % (n, f, sorted(got)))
            got.pop("_Streams/\x05SummaryInformation", None)
        got.pop("signature", None)
        if got:
            raise Violation("msidump wrote %r" % sorted(got))
        if tabs and not any("\t" in n or n.startswith("-") for n in db.t):
            # and back
            b = os.path.join(top, "b.msi")
            cmd = [env.p.msibuild, b]
            for f in idts:
                cmd += ["-i", f]
            if strs:
                for n in sorted(streams):
                    cmd += ["-a", n, "_Streams/" + fn(n)]
            q = tools.run(cmd, cwd=absdest)
            if q.rc:
                raise Violation("msibuild from a dump fails: %s" % q.err.decode("utf-8", "replace")[-400:])
            f1, f2 = p05.parse(path, "file"), p05.parse(b, "rebuilt file")
            p05.compare(db, f2, "rebuilt from the dump")
            f2.streams.pop("\x05SummaryInformation", None)     # it had none, so this has no properties
            if strs and f1.streams != f2.streams:
                raise Violation("the streams of the rebuilt file differ: %r, %r" % (sorted(f1.streams), sorted(f2.streams)))
            labels.add("rebuilt")
        return len(db.t) * tabs + len(want) * strs > 1, labels


PROP = P26
