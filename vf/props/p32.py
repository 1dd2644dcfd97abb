"""Sessions leave nothing behind: repeated in one process, each ends with the same memory and the same open files."""
import importlib, os, shutil

from hypothesis import strategies as st

from ..core import Prop, Violation, Env
from ..driver import Crash, Driver, describe
from .. import fuzz

# whose sessions are repeated
DONORS = ["p02", "p03", "p04", "p07", "p09", "p10", "p11", "p14", "p15", "p16", "p30"]
FUZZ = ["p17", "p29"]


def donor(n):
    d = importlib.import_module("vf.props." + n).PROP()
    d.tier = "quick"
    return d


class Again:
    """A driver which runs every script several times, with the files as they were before it."""
    def __init__(self, drv, root):
        self.drv, self.root, self.calls, self.worst = drv, root, 0, None

    def save(self):
        shutil.rmtree(self.root + ".was", ignore_errors=True)
        if os.path.isdir(self.root):
            shutil.copytree(self.root, self.root + ".was", symlinks=True)

    def restore(self):
        # the directory itself stays: it may be the current one
        if not os.path.isdir(self.root + ".was"):
            return
        for n in os.listdir(self.root):
            p = os.path.join(self.root, n)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        for n in os.listdir(self.root + ".was"):
            p = os.path.join(self.root + ".was", n)
            q = os.path.join(self.root, n)
            shutil.copytree(p, q, symlinks=True) if os.path.isdir(p) else shutil.copy2(p, q, follow_symlinks=False)

    def run(self, ops):
        self.calls += 1
        if self.drv.n > 2500:
            self.drv.stop()
        if not any(o[0] != "chdir" for o in ops):
            return self.drv.run(ops)
        self.save()
        res = self.drv.run(ops)
        seen = []
        for i in range(7):
            self.restore()
            self.drv.run(ops)
            m = self.drv.run([["mem"]])[0]
            seen.append((m["bytes"], m["fds"]))
            if i >= 2 and all(seen[i][k] <= seen[i - 1][k] for k in (0, 1)):
                break
        else:
            what = []
            for k, name in ((0, "%d bytes allocated"), (1, "%d files open")):
                d = [seen[i][k] - seen[i - 1][k] for i in range(2, 7)]
                if min(d) > 0:
                    what.append(name % min(d))
            if what:
                raise Left("every repetition leaves %s:\n    %s" % (" and ".join(what), "\n    ".join(describe(o)[:200] for o in ops)))
        return res

    def stop(self):
        self.drv.stop()


class Left(Exception):
    pass


class P32(Prop):
    id = "P32"
    needs = ("lib", "persist_msi", "persist_sql")
    quick = 800
    thorough = 6000
    rule = ("a case is a session or damaged input of one of the other properties (statements, refused ones, records, streams, summary information, imports, exports, merges, transforms, damaged files and statements), run four to eight times in one process "
            "with the files it found at first; memory allocated and files open have to stop growing; non-trivial: the session has more than five operations, or the input is a damaged one")

    def strategy(self):
        return st.sampled_from(DONORS + FUZZ).flatmap(lambda n: (lambda s: s() if callable(s) else s)(donor(n).strategy).map(lambda c: {"of": n, "case": c}))

    def setup(self, paths, tmp):
        env = Env()
        env.tmp, env.paths, env.p = tmp, paths, paths["lib"]
        env.drv = Driver(env.p.drv, keep=tmp)
        env.f = {}
        return env

    def run(self, case, env):
        d = donor(case["of"])
        if case["of"] in FUZZ:
            if case["of"] not in env.f:
                t = os.path.join(env.tmp, "fz-" + case["of"])
                os.makedirs(t, exist_ok=True)
                env.f[case["of"]] = fuzz.Persist([env.paths[d.persist]], t)
            try:
                left = env.f[case["of"]].run(d.input(case["case"]), True)
            except Violation:
                return False, ["dies"]      # what P17 and P29 are about
            if left:
                raise Violation("every repetition of this input leaves memory behind: %s" % str(case["case"])[:1500])
            return True, [case["of"]]
        e = Env()
        e.__dict__.update(env.__dict__)
        e.drv = a = Again(env.drv, os.path.join(env.tmp, "case"))
        try:
            nt = d.run(case["case"], e)[0]
        except Left as x:
            raise Violation(str(x))
        except (Violation, Crash):
            return False, ["fails"]         # what the other property is about
        return bool(nt), [case["of"]] if a.calls else ["no session"]

    def shrink(self, case):
        d = donor(case["of"])
        for c in d.shrink(case["case"]) or ():
            yield dict(case, case=c)


PROP = P32
