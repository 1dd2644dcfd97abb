import os

from hypothesis import strategies as st

from ..core import Prop, Violation, case_dir
from ..driver import X
from .. import hist


class P01(Prop):
    id = "P01"
    quick = 300
    thorough = 6000
    rule = ("a case is a generated history of SQL statements, commits and reopens on one database; non-trivial: at least one "
            "table has rows at the end and the history commits or reopens in the middle")

    def strategy(self):
        h = hist.history(w={"reopen": 4, "commit": 3})
        # strings around the sizes where the layout of the string pool changes
        many = hist.history(w={"reopen": 4, "commit": 2, "bulk": 3, "create": 1}, maxops=12, maxtables=2)
        return st.one_of(*[h] * 7, many, hist.history(w={"reopen": 4, "commit": 2, "select": 0}, maxops=9, maxtables=2, longs=True))

    def fixed_cases(self):
        return hist.strings_65536() + [{"path": n, "flags": f} for n in (1000, 4000, 4090, 4091, 4092, 4094, 4095, 4096, 4200, 20000) for f in (2, 4)]

    def run_path(self, case, env):
        """A database whose path is long: what cannot be opened is refused, what is committed is there."""
        d = case_dir(env)
        plain = os.path.join(d, "a.msi")
        n = case["path"] - len(d) - len("/a.msi")
        long = d + "/." * (n // 2) + "/" * (n % 2) + "/a.msi"
        sc = hist.Script()
        if case["flags"] == 4:
            sc.add(["open", "0", X(plain), "2", "N"], hist.expect_ok)
            sc.query(0, "CREATE TABLE `T` (`a` INT NOT NULL PRIMARY KEY `a`)", [], hist.expect_ok)
            sc.add(["commit", "0"], hist.expect_ok)
            sc.add(["close", "0"], hist.expect_ok)
        ok = []

        def opened(r):
            ok.append(r.get("st", "ok") == "ok" and r.get("ok") is not False)
            if case["path"] <= 4000 and not ok[0]:
                return "must succeed, failed"
        sc.add(["open", "0", X(long), str(case["flags"]), "N"], opened)
        if case["flags"] == 2:
            sc.query(0, "CREATE TABLE `T` (`a` INT NOT NULL PRIMARY KEY `a`)", [], None)
        sc.query(0, "INSERT INTO `T` (`a`) VALUES (7)", [], None)
        done = []
        sc.add(["commit", "0"], lambda r: done.append(r.get("ok") is True) or None)
        sc.add(["close", "0"])
        sc.run(env.drv)
        if ok[0] and not done[0] and case["path"] <= 4000:
            raise Violation("a database with a path of %d bytes cannot be committed" % case["path"])
        if ok[0] and done[0]:
            sc = hist.Script()
            sc.add(["open", "0", X(plain), "1", "N"], hist.expect_ok)
            sc.query(0, "SELECT * FROM `T`", [], hist.expect_rows([[7]]))
            sc.add(["close", "0"])
            sc.run(env.drv)
        return bool(ok[0] and done[0]), {"long-path", "opened" if ok[0] else "refused"}

    def run(self, case, env):
        if isinstance(case, dict):
            return self.run_path(case, env)
        labels, db, _ = hist.run_history(case, env)
        nt = any(t.rows for t in db.t.values()) and any(o["op"] in ("commit", "reopen") for o in case)
        return nt, labels


PROP = P01
