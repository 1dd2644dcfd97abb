"""Transactions: isolation, rollback, all-or-nothing commits under crashes and failing file operations."""
import os, shutil

from hypothesis import strategies as st

from ..core import Prop, Violation, case_dir, Env
from ..driver import Driver, X, Crash
from .. import build, cfb, hist, model as M, msifmt
from . import p05

W = {"create": 2, "insert": 10, "update": 3, "delete": 2, "select": 0, "addcol": 1, "drop": 1, "commit": 0, "reopen": 0, "rollback": 0, "bad": 0, "bulk": 1}


@st.composite
def cases(draw):
    # one history, cut in two: what is committed first, and what the second transaction does
    ops = draw(hist.history(w=W, maxops=16, binary=True, temp=False))
    cut = draw(st.integers(1, max(1, len(ops) - 1)))
    scen = draw(st.lists(st.one_of(
        st.tuples(st.just("crash"), st.integers(0, 999)), st.tuples(st.just("crash"), st.integers(0, 999)), st.tuples(st.just("crash"), st.integers(980, 999)),
        st.tuples(st.just("fail"), st.integers(0, 999)), st.tuples(st.just("fail"), st.integers(980, 999)), st.tuples(st.just("limit"), st.integers(0, 1000)),
        st.tuples(st.sampled_from(["rollback", "isolation", "persist"]), st.integers(0, 1)), st.tuples(st.sampled_from(["rollback", "isolation", "persist", "readonly", "twice", "persist-rollback", "create"]), st.just(0))), min_size=2, max_size=5, unique=True))
    return {"ops": ops, "cut": cut, "scen": [list(x) for x in scen]}


def state(path, what):
    try:
        return msifmt.read(open(path, "rb").read())
    except FileNotFoundError:
        raise Violation("%s: the database file is gone" % what)
    except cfb.Bad as e:
        raise Violation("%s: the database file is damaged: %s" % (what, e))


def matches(db, f):
    try:
        p05.compare(db, f, "x")
        return None
    except Violation as e:
        return str(e)


class P08(Prop):
    id = "P08"
    needs = ("plain",)
    quick = 200
    thorough = 3000
    rule = ("a case is two consecutive transactions with a set of scenarios for the end of the second: rollback, crash at the k-th file operation of the commit, "
            "failure of the k-th file operation, a file size limit, a separate output file, a read-only session; non-trivial: the transactions differ in content")
    strategy = staticmethod(cases)

    def setup(self, paths, tmp):
        env = Env()
        env.tmp = tmp
        env.paths = paths
        env.p = paths["plain"]
        env.shim = build.shim("fault")
        env.drv = Driver(env.p.drv, keep=tmp)
        env.n = 0
        return env

    def fdrv(self, env):
        k = os.path.join(env.tmp, "fault")
        os.makedirs(k, exist_ok=True)
        return Driver(env.p.drv, env={"LD_PRELOAD": env.shim, "ASAN_OPTIONS": ""}, keep=k)

    def shrink(self, case):
        for i in range(len(case["scen"])):
            if len(case["scen"]) > 1:
                yield dict(case, scen=[case["scen"][i]])
        for i in range(len(case["ops"]) - 1, -1, -1):
            cut = case["cut"] - (1 if i < case["cut"] else 0)
            yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:], cut=cut)

    def begin(self, path, ops, db, flags="4", out=None):
        sc = hist.Script()
        sc.add(["open", "0", X(path), flags, X(out)], hist.expect_ok)
        for op in ops:
            sql, params, ok = db.apply(op)
            sc.query(0, sql, params, hist.expect_ok if ok else hist.expect_fail)
        return sc

    def run(self, case, env):
        d = case_dir(env)
        base = os.path.join(d, "base.msi")
        old = M.DB()
        first = hist.expand(old, case["ops"][:case["cut"]])
        ops = hist.expand(old.committed(), case["ops"][case["cut"]:])
        old = M.DB()
        sc = self.begin(base, first, old, "2")
        sc.add(["commit", "0"], hist.expect_ok)
        sc.add(["close", "0"])
        sc.run(env.drv)
        old = old.committed()
        bytes0 = open(base, "rb").read()
        p05.compare(old, state(base, "first commit"), "first commit")
        new = old.copy()
        for op in ops:
            new.apply(op)
        new = new.committed()
        labels = set()

        def fresh():
            w = os.path.join(d, "w")
            shutil.rmtree(w, ignore_errors=True)
            os.mkdir(w)
            p = os.path.join(w, "db.msi")
            shutil.copyfile(base, p)
            return p

        def clean(path, what, also=()):
            left = set(os.listdir(os.path.dirname(path))) - {os.path.basename(path)} - set(also)
            if left:
                raise Violation("%s: left %s behind" % (what, sorted(left)))

        def one_of(path, what):
            f = state(path, what)
            a, b = matches(old, f), matches(new, f)
            if a and b:
                raise Violation("%s: the file has neither the old nor the new contents: %s; %s" % (what, a, b))
            return "new" if not b else "old"

        for kind, arg in case["scen"]:
            labels.add(kind)
            path = fresh()
            db = old.copy()
            if kind == "rollback":
                sc = self.begin(path, ops, db)
                sc.add(["close", "0"])
                sc.run(env.drv)
                if open(path, "rb").read() != bytes0:
                    raise Violation("closing without commit changed the file")
                clean(path, "closing without commit")
            elif kind == "isolation":
                sc = self.begin(path, ops, db)
                sc.add(["open", "1", X(path), "1", "N"], hist.expect_ok)
                hist.full_dump(sc, 1, old)
                hist.full_dump(sc, 0, db)
                sc.add(["commit", "0"], hist.expect_ok)
                sc.add(["close", "1"])
                sc.add(["open", "1", X(path), "1", "N"], hist.expect_ok)
                hist.full_dump(sc, 1, new)
                hist.full_dump(sc, 0, new)
                sc.run(env.drv)
                p05.compare(new, state(path, "commit"), "commit")
                clean(path, "commit and close")
            elif kind in ("persist", "persist-rollback"):
                out = os.path.join(os.path.dirname(path), "out.msi")
                sc = self.begin(path, ops, db, "4" if arg % 2 else "0", out)
                if kind == "persist":
                    sc.add(["commit", "0"], hist.expect_ok)
                    hist.full_dump(sc, 0, new)
                sc.add(["close", "0"])
                sc.run(env.drv)
                if open(path, "rb").read() != bytes0:
                    raise Violation("a session with a separate output file changed the input")
                if kind == "persist":
                    p05.compare(new, state(out, "separate output"), "separate output")
                elif os.path.exists(out):
                    raise Violation("output file written without a commit")
                clean(path, "separate output", ["out.msi"] if kind == "persist" else [])
            elif kind == "readonly":
                sc = hist.Script()
                sc.add(["open", "0", X(path), "1", "N"], hist.expect_ok)
                for op in ops:
                    sql, params, ok = db.apply(op)
                    sc.query(0, sql, params, None)
                sc.add(["commit", "0"], None)
                sc.add(["close", "0"])
                sc.run(env.drv)
                if open(path, "rb").read() != bytes0:
                    raise Violation("a read-only session changed the file")
                clean(path, "read-only session")
            elif kind == "create":
                p2 = os.path.join(os.path.dirname(path), "fresh.msi")
                sc = self.begin(p2, first + ops, M.DB(), "2")
                sc.add(["close", "0"])
                sc.run(env.drv)
                clean(path, "creation without commit")
            elif kind == "twice":
                # a commit, then more work, rolled back
                sc = self.begin(path, ops, db)
                sc.add(["commit", "0"], hist.expect_ok)
                db = db.committed()
                for n in sorted(db.t):
                    sc.query(0, "DELETE FROM `%s`" % n, [], hist.expect_ok)
                sc.add(["close", "0"])
                sc.run(env.drv)
                p05.compare(new, state(path, "commit, then rollback"), "commit, then rollback")
                clean(path, "commit, then rollback")
            elif kind == "limit":
                limit = len(bytes0) * arg // 500
                sc = self.begin(path, ops, db)
                sc.add(["limit_fsize", str(limit)])
                sc.add(["commit", "0"])
                sc.add(["limit_fsize", "N"])
                sc.add(["close", "0"])
                r = sc.run(env.drv)
                ok = r[-3].get("ok")
                got = one_of(path, "commit with a file size limit of %d (%s)" % (limit, "reported success" if ok else "reported failure"))
                labels.add("limit-ok" if ok else "limit-failed")
                if ok and got != "new" and matches(new, state(path, "limit")):
                    raise Violation("commit under a file size limit of %d reported success without saving" % limit)
            else:
                drv = self.fdrv(env)
                try:
                    sc = self.begin(path, ops, db)
                    sc.add(["arm", "0", "0"])
                    sc.add(["commit", "0"])
                    sc.add(["disarm"])
                    sc.add(["close", "0"])
                    r = drv.run(sc.ops)
                    n = r[-2].get("count", 0)
                    if n <= 0:
                        raise Violation("commit performs no file operation")
                    # small numbers aim at the first, large ones at the last operations
                    k = n - (999 - arg) if arg >= 980 and n > 999 - arg else 1 + arg % n
                    path = fresh()
                    mode = "0" if kind == "crash" else "1"
                    sc.ops[0][2] = X(path)
                    sc.ops[-4] = ["arm", str(k), mode]
                    what = "%s of file operation %d of %d of a commit" % ("crash at" if kind == "crash" else "failure", k, n)
                    try:
                        r = drv.run(sc.ops)
                        if kind == "crash":
                            raise Violation("%s: not reached" % what)
                        ok = r[-3].get("ok")
                        what += " (commit reported %s)" % ("success" if ok else "failure")
                        got = one_of(path, what)
                        labels.add("fail-ok" if ok else "fail-failed")
                        if ok and matches(new, state(path, what)):
                            raise Violation("%s, but nothing was saved" % what)
                    except Crash as e:
                        if kind != "crash" or getattr(e, "rc", None) != 77:
                            raise Violation("%s: %s" % (what, e))
                        got = one_of(path, what)
                        labels.add("crash-" + got)
                        # and the file can be opened and committed again
                        sc = hist.Script()
                        want = new if got == "new" else old
                        if not matches(old, state(path, what)):
                            want = old
                        sc.add(["open", "0", X(path), "4", "N"], hist.expect_ok)
                        hist.full_dump(sc, 0, want)
                        sc.add(["commit", "0"], hist.expect_ok)
                        sc.add(["close", "0"])
                        sc.run(env.drv)
                        p05.compare(want, state(path, "commit after " + what), "commit after " + what)
                finally:
                    drv.stop()
        differ = matches(new, msifmt.read(bytes0)) is not None
        return differ, labels


PROP = P08
