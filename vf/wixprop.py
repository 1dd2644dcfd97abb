"""What the properties of wixl share: build a generated document and the reference's idea of it."""
import os

from .core import Prop, Violation, case_dir
from . import cfb, msifmt, tools, wixgen, wixref


class WixProp(Prop):
    needs = ("full",)
    quick = 60
    thorough = 1200
    focus = ()
    tables = ()
    kw = {}

    def setup(self, paths, tmp):
        from .core import Env
        env = Env()
        env.tmp = tmp
        env.paths = paths
        env.p = paths["full"] if "full" in paths else paths["plain"]
        return env

    def strategy(self):
        return wixgen.document(focus=self.focus, **self.kw)

    def shrink(self, case):
        return wixgen.tree_shrink(case)

    def ran(self, case, env):
        """-> directory, file, reference; None where the reference rejects the document (and wixl as well)"""
        d = case_dir(env)
        r, look = wixgen.build(env, d, case)
        out = os.path.join(d, "out.msi")
        try:
            ref = wixgen.reference(case, look)
        except wixref.Reject as e:
            if r.rc == 0:
                raise Violation("wixl accepts a document that should be rejected: %s" % e)
            return None
        if r.rc != 0 and b"depends on itself" in r.err and any(wixgen.contradictory(s) for s in ref.seq.values()):
            return None
        if r.rc != 0:
            raise Violation("wixl fails (%d): %s" % (r.rc, r.err.decode("utf-8", "replace")[-600:]))
        return d, wixgen.parse(out), ref

    def run(self, case, env):
        x = self.ran(case, env)
        if x is None:
            return False, ["rejected"]
        d, f, ref = x
        self.verify(case, d, f, ref)
        return self.rate(case, f, ref)

    def verify(self, case, d, f, ref):
        for t in self.tables:
            wixgen.check_table(f, ref, t)

    def rate(self, case, f, ref):
        n = {t: len(ref.t[t]) for t in self.tables}
        return any(n.values()), ["has " + t for t, k in n.items() if k]
