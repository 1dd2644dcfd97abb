"""Export and import: the texts of all tables rebuild the database."""
import os

from hypothesis import strategies as st

from ..core import Prop, Violation, case_dir
from ..driver import X
from .. import hist, idt, model as M, msifmt, tools
from . import p05


@st.composite
def cases(draw):
    via = draw(st.sampled_from(["api", "api", "api", "tools"]))
    cp = draw(st.sampled_from([0, 0, 65001, 1252]))
    return {"ops": draw(idt.database("uni" if cp == 65001 else "latin")), "via": via, "cp": cp,
            "into": draw(st.sampled_from(["empty", "empty", "same", "twice"]))}


class P09(Prop):
    id = "P09"
    quick = 260
    thorough = 5000
    rule = ("a case is a generated database all of whose tables are exported and imported into an empty database, into itself or twice, through the API "
            "or msiinfo export and msibuild -i; the result is compared with the model and, committed, by an independent parser; "
            "non-trivial: at least one table with two columns and a row")
    strategy = staticmethod(cases)

    def shrink(self, case):
        for i in range(len(case["ops"]) - 1, -1, -1):
            yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
        for k, v in (("cp", 0), ("into", "empty"), ("via", "api")):
            if case[k] != v:
                yield dict(case, **{k: v})

    def run(self, case, env):
        d = case_dir(env)
        src, dst = os.path.join(d, "a.msi"), os.path.join(d, "b.msi")
        db = M.DB()
        cp = case["cp"]
        cpf = os.path.join(d, "cp.idt")
        with open(cpf, "wb") as f:
            f.write(b"\r\n\r\n%d\t_ForceCodepage\r\n" % cp)
        sc = hist.Script()
        sc.add(["chdir", X(d)])
        sc.add(["open", "0", X(src), "2", "N"], hist.expect_ok)
        if cp:
            sc.add(["import", "0", X(cpf)], hist.expect_ok)
        for op in case["ops"]:
            sql, params, ok = db.apply(op)
            sc.query(0, sql, params, hist.expect_ok if ok else hist.expect_fail)
        sc.add(["commit", "0"], hist.expect_ok)
        names = sorted(db.t)
        files = {n: os.path.join(d, "%d.idt" % i) for i, n in enumerate(names)}
        files["_ForceCodepage"] = os.path.join(d, "cp2.idt")
        order = ["_ForceCodepage"] + names
        if case["via"] == "api":
            for n in order:
                sc.add(["export", "0", X(n), X(files[n])], hist.expect_ok)
            if case["into"] == "same":
                for n in order:
                    sc.add(["import", "0", X(files[n])], hist.expect_ok)
                hist.full_dump(sc, 0, db)
                hist.catalog(sc, 0, db)
                sc.add(["commit", "0"], hist.expect_ok)
                dst = src
            else:
                sc.add(["open", "1", X(dst), "2", "N"], hist.expect_ok)
                for k in range(2 if case["into"] == "twice" else 1):
                    for n in order:
                        sc.add(["import", "1", X(files[n])], hist.expect_ok)
                    hist.full_dump(sc, 1, db)
                    hist.catalog(sc, 1, db)
                sc.add(["commit", "1"], hist.expect_ok)
                hist.full_dump(sc, 1, db)
                sc.add(["close", "1"])
            sc.add(["close", "0"])
            sc.add(["chdir", X(env.tmp)])
            sc.run(env.drv)
        else:
            sc.add(["close", "0"])
            sc.add(["chdir", X(env.tmp)])
            sc.run(env.drv)
            for n in order:
                r = tools.run([env.p.msiinfo, "export", src, n], cwd=d)
                if r.rc:
                    raise Violation("msiinfo export %s failed: %s" % (n, r.err[:300]))
                with open(files[n], "wb") as f:
                    f.write(r.out)
            r = tools.run([env.p.msibuild, dst, "-i"] + [files[n] for n in order], cwd=d)
            if r.rc:
                raise Violation("msibuild -i failed: %s" % r.err[:300])
        f = p05.parse(dst, "after import")
        p05.compare(db, f, "after import")
        if f.codepage != cp:
            raise Violation("the code page became %d, was %d" % (f.codepage, cp))
        nt = any(len(t.cols) > 1 and t.rows for t in db.t.values())
        labels = {case["via"], case["into"], "cp%d" % cp}
        vals = [v for t in db.t.values() for r in t.rows for v in r]
        if any(isinstance(v, str) and set(v) & set("\t\r\n") for v in vals):
            labels.add("separators")
        if any(isinstance(v, bytes) for v in vals):
            labels.add("binary")
        return nt, labels


PROP = P09
