import os

from hypothesis import strategies as st

from ..core import Prop, Violation, case_dir
from ..driver import X
from .. import hist, model as M, msifmt
from .p05 import compare, parse, strings_ok


@st.composite
def files(draw):
    cp = draw(st.sampled_from([0, 0, 1252, 1252, 65001, 65001, 1251, 932, 20127 if False else 1250]))
    sample = {0: M.LATIN, 1252: M.LATIN, 65001: M.LATIN + M.UNI, 1251: "Ωжабвгд".replace("Ω", ""), 932: "日本語かなｱ", 1250: "éáőűŁž"}[cp]
    txt = st.one_of(st.sampled_from(["a", "b", "x y", "it's"]), st.text(M.ASCII + sample * 3, max_size=10))
    db = M.DB()
    opts = {"cp": cp, "bps": draw(st.sampled_from([2, 2, 3])), "holes": draw(st.sampled_from([0, 0, 1, 3])),
            "empty": draw(st.booleans()), "pool": draw(st.lists(txt, max_size=5)), "cut": draw(st.sampled_from([4096]))}
    ops = []
    names = {}
    for i in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3, 3]))):
        nm = draw(M.tname().filter(lambda s: s not in db.t))
        op = {"op": "create", "t": nm, "cols": [c.json() for c in draw(M.columns(binary=True))]}
        db.apply(op)
        ops.append(op)
        for j in range(draw(st.integers(0, 8))):
            op = draw(hist.insert_op(db.t[nm], txt, temp=False))
            if M.has_binary(db.t[nm]) and not hist.claim_stream(names, db.t[nm], op):
                continue
            db.apply(op)
            ops.append(op)
    if draw(st.integers(0, 3)) == 0:
        opts["long"] = draw(st.sampled_from([65535, 65536, 65537, 131072, 200000]))
    edit = []
    if not db.t:
        opts["pool"] = []
        if draw(st.booleans()):
            edit.append({"op": "create", "t": "First_", "cols": [["k", "s", 0, False, False, True], ["v", "s", 0, True, False, False]]})
            db.apply(edit[0])
    for i in range(draw(st.integers(0, 4)) if db.t else 0):
        t = db.t[draw(st.sampled_from(sorted(db.t)))]
        op = draw(st.one_of(hist.insert_op(t, txt), hist.update_op(t, txt),
                            hist.where_op(t).map(lambda w: {"op": "delete", "t": t.name, "where": w})))
        if op is None or op["op"] == "insert" and M.has_binary(t) and not hist.claim_stream(names, t, op):
            continue
        db.apply(op)
        edit.append(op)
    return {"opts": opts, "ops": ops, "edit": edit}


class P06(Prop):
    id = "P06"
    quick = 300
    thorough = 6000
    rule = ("a case is a database written by an independent implementation of the format (2 or 3 byte string references, unused and empty "
            "pool entries, code pages, strings over 64k, absent streams of empty tables), read by libmsi, edited, committed and parsed again; "
            "non-trivial: at least one row of the file has a string")

    strategy = staticmethod(files)

    def fixed_cases(self):
        """The number of strings around 64k, where references become three bytes wide: tables not touched change as well."""
        cols = [["k", "s", 0, False, False, True], ["v", "s", 0, True, True, False], ["n", "i2", 0, True, False, False]]
        out = []
        for bps, fill in ((2, 65519), (3, 66000), (3, 100)) if self.tier == "quick" else ((2, 65480), (2, 65500), (2, 65510), (2, 65519), (3, 65480), (3, 65530), (3, 66000), (3, 100)):
            ops = []
            for t in "AB":
                ops.append({"op": "create", "t": t, "cols": cols})
                for i in range(4):
                    ops.append({"op": "insert", "t": t, "cols": ["k", "v", "n"], "vals": ["%s%d" % (t, i), "v%d" % (i % 3), i],
                                "par": [True] * 3, "temp": False})
            edit = [{"op": "insert", "t": "A", "cols": ["k", "v", "n"], "vals": ["new%d" % i, "nv%d" % i, i], "par": [True] * 3, "temp": False}
                    for i in range(14)] + [{"op": "update", "t": "B", "set": [["v", "zz", True]], "where": ["cmp", "=", [None, "k"], ["lit", "B2"]]}]
            for n in (0, len(edit)) if self.tier != "quick" else (len(edit),):
                out.append({"opts": {"cp": 0, "bps": bps, "holes": 0, "empty": True, "pool": [], "fill": fill}, "ops": ops, "edit": edit[:n]})
        return out

    def shrink(self, case):
        for k in ("edit", "ops"):
            for i in range(len(case[k]) - 1, -1, -1):
                yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
        for k, v in (("bps", 2), ("holes", 0), ("cp", 0), ("pool", [])):
            if case["opts"].get(k) != v:
                yield dict(case, opts=dict(case["opts"], **{k: v}))

    def run(self, case, env):
        o = case["opts"]
        d = case_dir(env)
        path = os.path.join(d, "w.msi")
        db = M.DB()
        for op in case["ops"]:
            db.apply(op)
        db = db.committed()
        if o.get("long"):
            # one more table with long strings, used several times
            t = M.Table("Long_", [M.Col("k", "i4", key=True, null=False), M.Col("v", "s")])
            a, b = "a" * o["long"], "bc" * (o["long"] // 2)
            t.rows = [[1, a], [2, b], [3, a], [4, "z"]]
            t.temp = [False] * 4
            db.t[t.name] = t
        w = msifmt.Writer(codepage=o["cp"], bps=o["bps"], holes=o["holes"])
        pool = o["pool"] + ["filler%d" % i for i in range(o.get("fill", 0))]
        data = w.build(list(db.t.values()), pool_first=pool, empty_streams=o["empty"])
        with open(path, "wb") as f:
            f.write(data)
        msifmt.read(data)
        sc = hist.Script()
        sc.add(["open", "0", X(path), "1", "N"], hist.expect_ok)
        hist.full_dump(sc, 0, db)
        hist.catalog(sc, 0, db)
        sc.add(["close", "0"])
        sc.add(["open", "0", X(path), "4", "N"], hist.expect_ok)
        for op in case["edit"]:
            sql, params, ok = db.apply(op)
            sc.query(0, sql, params, hist.expect_ok if ok else hist.expect_fail)
        hist.full_dump(sc, 0, db)
        sc.add(["commit", "0"], hist.expect_ok)
        sc.add(["close", "0"])
        db = db.committed()
        sc.add(["open", "0", X(path), "1", "N"], hist.expect_ok)
        hist.full_dump(sc, 0, db)
        sc.add(["close", "0"])
        sc.run(env.drv)
        f = parse(path, "file after an edit")
        if f.codepage != o["cp"]:
            raise Violation("the code page became %d, was %d" % (f.codepage, o["cp"]))
        compare(db, f, "file after an edit")
        strings_ok(f, "file after an edit")
        labels = {"cp%d" % o["cp"], "bps%d" % o["bps"]} | ({"holes"} if o["holes"] else set()) | ({"long"} if o.get("long") else set()) | ({"fill"} if o.get("fill") else set()) | ({"no-tables"} if not case["ops"] else set()) | (
            {"edited"} if case["edit"] else set())
        return any(isinstance(v, str) for t in db.t.values() for r in t.rows for v in r), labels


PROP = P06
