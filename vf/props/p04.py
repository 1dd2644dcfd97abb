from ..core import Prop
from .. import hist


class P04(Prop):
    id = "P04"
    quick = 300
    thorough = 6000
    rule = ("a case is a generated history of CREATE/DROP/ALTER TABLE statements (temporary tables and HOLD/FREE included), rows, "
            "refused statements, commits and reopens, the catalogue compared with the model after every schema change; non-trivial: "
            "a DROP, ALTER or temporary table, and at least one table left at the end")

    def strategy(self):
        return hist.history(w={"create": 4, "insert": 5, "bad": 0, "update": 0, "badraw": 1, "delete": 1, "select": 1, "hold": 1,
                               "tcreate": 2, "addcol": 3, "drop": 3, "commit": 1, "reopen": 2}, maxtables=5)

    def run(self, case, env):
        labels, db, _ = hist.run_history(case, env, catalog_every=True, dump_all=True)
        return bool(labels & {"drop", "addcol", "tcreate"}) and bool(db.t), labels


PROP = P04
