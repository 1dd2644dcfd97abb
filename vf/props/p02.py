from ..core import Prop
from .. import hist


class P02(Prop):
    id = "P02"
    quick = 400
    thorough = 8000
    rule = ("a case is up to three generated tables with rows and up to eight generated SELECT statements (joins of up to three "
            "tables, WHERE with AND/OR, literals, parameters and column comparisons, DISTINCT, ORDER BY, projections); non-trivial: "
            "at least one SELECT has a condition, a join, DISTINCT or ORDER BY over a table with two or more rows")

    def strategy(self):
        return hist.prepared()

    def run(self, case, env):
        labels, db, _ = hist.run_history(case, env, dump_every=False)
        nt = any(o["op"] == "select" and (o["where"] or o["distinct"] or o["order"] or len(o["t"]) > 1)
                 and any(len(db.t[t].rows) > 1 for t in o["t"] if t in db.t) for o in case)
        return nt, labels


PROP = P02
