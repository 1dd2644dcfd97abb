"""msiinfo export -s gives statements which build the same table again."""
import os

from hypothesis import strategies as st

from ..core import Prop, Violation, case_dir
from ..driver import X
from .. import hist, idt, model as M, tools
from . import p05


def unquotable(ops):
    return any(isinstance(v, str) and "'" in v for op in ops if op["op"] == "insert" for v in op["vals"])


@st.composite
def cases(draw):
    db = M.DB()
    ops = []
    txt = st.one_of(M.text(), M.text(), idt.CTL, st.sampled_from(["a;b", "\\", "\\n", "a\\'b", "x; INSERT INTO `T`", "--", "\"", "a\nb", "\x10", "\x19"])).map(lambda s: s.replace("'", "’"))
    for i in range(draw(st.integers(1, 3))):
        nm = draw(st.one_of(M.tname(), st.sampled_from(["Key", "Order", "Table", "Select", "Insert", "Char"])).filter(lambda s: s not in db.t))
        op = {"op": "create", "t": nm, "cols": [c.json() for c in draw(M.columns(binary=False))]}
        db.apply(op)
        ops.append(op)
        t = db.t[nm]
        for j in range(draw(st.integers(0, 8))):
            op = draw(hist.insert_op(t, txt))
            if op["temp"]:
                continue
            db.apply(op)
            if t.rows and all(v is None for v in t.rows[-1]):
                t.rows.pop()        # known finding
                t.temp.pop()
                continue
            ops.append(op)
    return {"ops": ops, "order": draw(st.permutations(sorted(db.t))), "split": draw(st.sampled_from(["arg", "one", "lines"]))}


class P13(Prop):
    id = "P13"
    quick = 120
    thorough = 2500
    rule = ("a case is a generated database whose tables are written as SQL by msiinfo export -s and rebuilt from it by msibuild -q, "
            "in one argument per table, one for all, or one per line; non-trivial: a table has a row")
    strategy = staticmethod(cases)

    def shrink(self, case):
        for i in range(len(case["ops"]) - 1, -1, -1):
            ops = case["ops"][:i] + case["ops"][i + 1:]
            names = [o["t"] for o in ops if o["op"] == "create"]
            if all(o["t"] in names for o in ops) and names:
                yield dict(case, ops=ops, order=[n for n in case["order"] if n in names])

    def run(self, case, env):
        d = case_dir(env)
        a, b = os.path.join(d, "a.msi"), os.path.join(d, "b.msi")
        m = M.DB()
        sc = hist.Script()
        sc.add(["open", "0", X(a), "2", "N"], hist.expect_ok)
        for op in case["ops"]:
            sql, params, ok = m.apply(op)
            sc.query(0, sql, params, hist.expect_ok if ok else hist.expect_fail)
        sc.add(["commit", "0"], hist.expect_ok)
        sc.add(["close", "0"])
        sc.run(env.drv)
        outs = []
        for n in case["order"]:
            r = tools.run([env.p.msiinfo, "export", "-s", a, n])
            if r.rc or r.err:
                raise Violation("msiinfo export -s %s: rc %d, %s" % (n, r.rc, r.err[:300]))
            outs.append(r.out)
        args = outs if case["split"] != "one" else [b"".join(outs)]
        if case["split"] == "lines":
            args = []
            for o in outs:
                lines = o.split(b"\n")
                # a line break inside of a string is no end of a statement
                cur = b""
                for l in lines:
                    cur += l + b"\n"
                    if cur.count(b"'") % 2 == 0 and cur.strip():
                        args.append(cur)
                        cur = b""
        r = tools.run([env.p.msibuild, b] + ["-q"] + args)
        if r.rc:
            raise Violation("msibuild -q of %r failed: %s" % (args, r.err[:300]))
        f = p05.parse(b, "rebuilt file")
        p05.compare(m, f, "rebuilt from %r" % args)
        return any(t.rows for t in m.t.values()), {case["split"]}


PROP = P13
