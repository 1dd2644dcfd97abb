from hypothesis import strategies as st

from ..core import Prop
from .. import hist


class P03(Prop):
    id = "P03"
    quick = 300
    thorough = 6000
    rule = ("a case is a generated history of INSERT, UPDATE and DELETE statements, valid and invalid, every table compared with the "
            "model after each; non-trivial: it has an UPDATE or DELETE matching rows, or a rejected statement, on a non-empty table")

    def strategy(self):
        w = {"create": 1, "insert": 8, "bad": 4, "update": 5, "badupdate": 3, "delete": 3, "badraw": 2, "select": 0,
             "addcol": 0, "drop": 0, "commit": 1, "reopen": 1}
        return st.one_of(*[hist.history(w=w, maxtables=3)] * 7, hist.history(w=dict(w, bulk=6, insert=3), maxops=10, maxtables=2))

    def run(self, case, env):
        labels, db, _ = hist.run_history(case, env, dump_all=True)
        return bool(labels & {"update-hit", "delete-hit", "rejected-insert", "rejected-update", "raw"}), labels


PROP = P03
