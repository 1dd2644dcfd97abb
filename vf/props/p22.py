"""Actions of the sequences: all there, with their conditions and numbers, in the order asked for."""
from hypothesis import strategies as st

from .. import wixgen, wixprop


class P22(wixprop.WixProp):
    id = "P22"
    quick = 160
    thorough = 2500
    focus = ("sequence", "action")
    tables = ("CustomAction",)
    rule = ("a case is a generated WiX document with actions in any of the five sequences, placed by number, After, Before, OnExit or not at all, with conditions; the sequences hold "
            "exactly the expected actions with the given or documented numbers and conditions, and every After and Before holds; non-trivial: two ordering constraints")

    def strategy(self):
        # the rows of other tables bring standard actions of their own
        return st.sets(st.sampled_from(["shortcut", "registry", "service", "ini", "folder", "property"]), max_size=2).flatmap(
            lambda x: wixgen.document(focus=self.focus + tuple(sorted(x))))

    def verify(self, case, d, f, ref):
        super().verify(case, d, f, ref)
        wixgen.check_sequences(f, ref)

    def rate(self, case, f, ref):
        n = sum(1 for s in ref.seq.values() for _ in wixgen.edges(s))
        labels = ["%s constraints" % (n if n < 5 else ">4")]
        if any(wixgen.contradictory(s) for s in ref.seq.values()):
            labels.append("not satisfiable")
        return n > 1, labels


PROP = P22
