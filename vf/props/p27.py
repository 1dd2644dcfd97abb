"""msidiff prints nothing for equal databases, and otherwise a diff that turns the one dump into the other."""
import os

from hypothesis import strategies as st

from ..core import Prop, Violation, case_dir
from ..driver import X
from .. import hist, idt, model as M, tools
from . import p18, p26


@st.composite
def edited(draw):
    ops = draw(p26.databases(binary=draw(st.integers(0, 3)) == 0, names=["A B", "a/b", "x*", "-n", "é", "$x"]))
    b = list(ops)
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 4]))):
        k = draw(st.sampled_from(["drop", "row", "add", "new", "swap"]))
        names = [o["t"] for o in b if o["op"] == "create"]
        if k == "drop" and names:
            n = draw(st.sampled_from(names))
            b = [o for o in b if o["t"] != n]
        elif k == "row":
            rows = [i for i, o in enumerate(b) if o["op"] == "insert"]
            if rows:
                del b[draw(st.sampled_from(rows))]
        elif k == "swap":
            # the same rows, other order of insertion
            rows = [i for i, o in enumerate(b) if o["op"] == "insert"]
            if len(rows) > 1:
                i, j = draw(st.sampled_from(rows)), draw(st.sampled_from(rows))
                b[i], b[j] = (b[j], b[i]) if b[i]["t"] == b[j]["t"] else (b[i], b[j])
        else:
            m = M.DB()
            for o in b:
                m.apply(o)
            if k == "new":
                nm = draw(M.tname().filter(lambda s: s not in m.t))
                b.append({"op": "create", "t": nm, "cols": [c.json() for c in draw(M.columns())]})
            else:
                ts = [t for t in m.t.values() if not M.has_binary(t) and len(t.cols) > 1]
                if ts:
                    o = draw(hist.insert_op(draw(st.sampled_from(ts)), M.text()))
                    if not o["temp"]:
                        b.append(o)
    return {"kind": "tables", "a": ops, "b": b}


@st.composite
def packages(draw):
    pk = p18.package().filter(lambda p: not p["evil"] and not p["bad"])
    a = draw(pk)
    how = draw(st.sampled_from(["same", "less", "other", "name"]))
    b = dict(a)
    if how == "other":
        b = draw(pk)
    elif how == "less" and a["files"]:
        i = draw(st.integers(0, len(a["files"]) - 1))
        b = dict(a, files=a["files"][:i] + a["files"][i + 1:], assign=a["assign"][:i] + a["assign"][i + 1:])
    elif how == "name" and a["files"]:
        i = draw(st.integers(0, len(a["files"]) - 1))
        b = dict(a, files=[f if k != i else f[:2] + [f[2].split("|")[-1] + "x"] + f[3:] for k, f in enumerate(a["files"])])
    return {"kind": "list", "a": a, "b": b}


@st.composite
def cases(draw):
    c = draw(st.one_of(edited(), edited(), packages()))
    c["space"] = draw(st.booleans())
    c["opts"] = draw(st.sampled_from([[], ["-t"], ["--tables"], ["-NU0"], ["-t", "-a", "-uN"]])) if c["kind"] == "tables" else draw(st.sampled_from([["-l"], ["--list"], ["-l", "-U3"]]))
    c["bad"] = draw(st.sampled_from([None] * 14 + ["old", "new", "one", "nomsi"]))
    return c


def listing(p):
    """All files and directories of a package, or None if that is not settled."""
    want = set()
    for f, parts in p18.paths(p, "").items():
        i = next(i for i, x in enumerate(p["files"]) if x[0] == f)
        if p["media"][p["assign"][i]][0] == "none":
            continue
        j = "/".join(parts)
        if j in want:
            return None
        want.add(j)
    for a in want:
        if any(b.startswith(a + "/") for b in want):
            return None
    for w in list(want):
        while "/" in w:
            w = w.rsplit("/", 1)[0]
            want.add(w)
    return want


class P27(Prop):
    id = "P27"
    needs = ("lib", "full")
    quick = 40
    thorough = 800
    rule = ("a case is two generated databases, equal or differing by rows or tables, or two packages with files; msidiff compares their tables, the diff is applied to a dump of the first with patch and compared with a dump of the second; "
            "or their lists of files; non-trivial: the two differ")
    strategy = staticmethod(cases)

    def setup(self, paths, tmp):
        env = super().setup(paths, tmp)
        env.full = paths["full"]
        return env

    def shrink(self, case):
        if case["kind"] == "tables":
            for k in "ab":
                for i in range(len(case[k]) - 1, -1, -1):
                    ops = case[k][:i] + case[k][i + 1:]
                    names = [o["t"] for o in ops if o["op"] == "create"]
                    if all(o["t"] in names for o in ops):
                        yield dict(case, **{k: ops})
        if case["space"]:
            yield dict(case, space=False)

    def run(self, case, env):
        top = os.path.realpath(case_dir(env))
        sp = " " if case["space"] else "_"
        cwd, tmp = os.path.join(top, "c" + sp + "d"), os.path.join(top, "t" + sp + "p")
        os.makedirs(cwd)
        os.makedirs(tmp)
        e = p26.path_env(env, TMPDIR=tmp)
        e["PATH"] = e["PATH"].replace(":", ":" + os.path.dirname(env.full.msiextract) + ":", 1)
        names = ["old" + sp + "one.msi", "p" + sp + "q/new.msi"]
        os.makedirs(os.path.join(cwd, "p" + sp + "q"))
        lists = []
        for n, k in zip(names, "ab"):
            path = os.path.join(cwd, n)
            if case["kind"] == "tables":
                p26.build(env, case[k], {}, path)
            else:
                p18.PROP.write(None, case[k], path, "")
                lists.append(listing(case[k]))
        args = list(names)
        bad = case["bad"]
        if bad in ("old", "new"):
            args[bad == "new"] = "nosuch.msi"
        elif bad == "one":
            args.pop()
        elif bad == "nomsi":
            open(os.path.join(cwd, names[1]), "wb").write(b"no database at all")
        before = p26.files(top)
        r = tools.run([os.path.join(p26.scripts(env), "msidiff")] + case["opts"] + args, cwd=cwd, env=e)
        after = p26.files(top)
        if after != before or os.listdir(tmp):
            raise Violation("msidiff changed %r" % (sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k)) + os.listdir(tmp)))
        labels = {case["kind"], "bad" if bad else "good"}
        err = r.err.decode("utf-8", "replace")[-400:]
        if bad:
            if r.rc == 0:
                raise Violation("msidiff succeeds (%s): %r" % (bad, r.out[-300:]))
            return True, labels
        # openssl finds no signature
        if r.rc == 0 and r.err.replace(b"Error: offset out of range\n", b""):
            raise Violation("msidiff succeeds but prints %s" % err)
        if case["kind"] == "list":
            if None in lists:
                return False, {"unsettled"}
            if r.rc:
                raise Violation("msidiff fails (%d): %s" % (r.rc, err))
            got = {l for l in r.out.decode("utf-8").splitlines() if l[:1] in "+-" and not l.startswith(("+++ ", "--- "))}
            want = {"-" + x for x in lists[0] - lists[1]} | {"+" + x for x in lists[1] - lists[0]}
            if got != want:
                raise Violation("msidiff lists %r, expected %r" % (sorted(got), sorted(want)))
            if not want and r.out:
                raise Violation("msidiff prints %r" % r.out[:300])
            return bool(want), labels
        if r.rc:
            raise Violation("msidiff fails (%d): %s" % (r.rc, err))
        dumps = []
        for n, k in zip(names, ("da", "db")):
            d = os.path.join(top, k)
            os.makedirs(d)
            q = tools.run([os.path.join(p26.scripts(env), "msidump"), "-d", d, "-t", n], cwd=cwd, env=e)
            if q.rc:
                raise Violation("msidump fails: %s" % q.err[-300:])
            dumps.append(p26.files(d))
        if (dumps[0] == dumps[1]) != (r.out == b""):
            raise Violation("msidiff of %s dumps prints %r" % ("equal" if dumps[0] == dumps[1] else "different", r.out[:300]))
        if b"Binary files " in r.out or not r.out:
            return bool(r.out), labels | {"equal" if not r.out else "binary"}
        q = tools.run(["patch", "-p1", "--binary", "-s", "-E", "-f", "-d", os.path.join(top, "da")], stdin=r.out)
        got = p26.files(os.path.join(top, "da"))
        if q.rc or got != dumps[1]:
            raise Violation("the diff does not lead from one dump to the other (patch: %d %s): %r; %s" % (
                q.rc, (q.out + q.err).decode("utf-8", "replace")[-300:], [k for k in set(got) | set(dumps[1]) if got.get(k) != dumps[1].get(k)], r.out.decode("utf-8", "replace")[:600]))
        return True, labels | {"patched"}


PROP = P27
