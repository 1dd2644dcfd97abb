"""Merging databases, against the row sets of both."""
import os

from hypothesis import strategies as st

from ..core import Prop, Violation, case_dir
from ..driver import X
from .. import hist, idt, model as M
from . import p05

ERR = 'MergeErrors'


@st.composite
def cases(draw):
    txt = st.one_of(M.text(), M.text(), idt.CTL)
    tabs = []
    used = set()
    names = {}
    for i in range(draw(st.integers(1, 4))):
        nm = draw(st.one_of(M.tname(), st.sampled_from(["Key", "Order", "Select"])).filter(lambda s: s not in used and s != ERR))
        used.add(nm)
        cols = draw(M.columns(binary=draw(st.integers(0, 3)) == 0, maxcols=5))
        t = {"t": nm, "cols": [c.json() for c in cols], "db": None, "merge": None, "mis": None}
        where = draw(st.sampled_from(["both", "both", "both", "db", "merge"]))
        m = M.DB()
        m.apply({"op": "create", "t": nm, "cols": t["cols"]})
        rows = []
        for j in range(draw(st.integers(0, 8))):
            op = draw(hist.insert_op(m.t[nm], txt))
            op["temp"] = False
            if M.has_binary(m.t[nm]) and not hist.claim_stream(names, m.t[nm], op):
                continue
            if m.apply(op)[2]:
                rows.append(op)
        side = [draw(st.sampled_from(["db", "merge", "same", "diff"] if where == "both" else [where])) for r in rows]
        for s in ("db", "merge"):
            if where in (s, "both"):
                t[s] = []
        dd = M.DB()
        dd.apply({"op": "create", "t": nm, "cols": t["cols"]})
        tab = dd.t[nm]
        can = [c for c in tab.cols if not c.key and c.kind != "b"]
        for r, s in zip(rows, side):
            if s in ("db", "same", "diff"):
                t["db"].append(r)
            if s in ("merge", "same"):
                t["merge"].append(r)
            if s == "diff":
                r2 = dict(r, vals=list(r["vals"]), par=[True] * len(r["par"]))
                for i, c in enumerate(r["cols"]):
                    if any(x.name == c for x in can) and draw(st.booleans()):
                        r2["vals"][i] = draw(M.value(tab.cols[tab.col(c)], txt, nulls=False))
                t["merge"].append(r2)
        if draw(st.integers(0, 9)) == 0 and where == "both":
            t["mis"] = draw(st.sampled_from(["type", "name", "key", "null"]))
        elif draw(st.integers(0, 5)) == 0 and where == "both":
            t["mis"] = draw(st.sampled_from(["width", "loc"]))
        elif draw(st.integers(0, 5)) == 0 and where == "both":
            # the other table has a column less or more at its end
            last = tab.cols[-1]
            if draw(st.booleans()):
                t["mis"] = "more"
                t["db"], t["merge"] = [r for r, s in zip(rows, side) if s == "db"], [r for r, s in zip(rows, side) if s == "merge"]
            elif last.null and not last.key and last.kind != "b":
                t["mis"] = "fewer"
                t["db"], t["merge"] = [r for r, s in zip(rows, side) if s == "db"], [r for r, s in zip(rows, side) if s == "merge"]
        if t["mis"] in ("more", "fewer"):
            t["cols"] = [c.json() for c in tab.cols]
        tabs.append(t)
    return {"tabs": tabs, "err": draw(st.sampled_from([ERR, ERR, ERR, None])), "again": draw(st.booleans()), "reopen": draw(st.booleans())}


def mismatch(cols, how):
    """Another definition of the table. -> columns, whether a merge must be refused"""
    cols = [list(c) for c in cols]
    nk = [c for c in cols if not c[5] and c[1] != "b"]
    st = [c for c in cols if c[1] == "s"]
    if how == "type" and nk:
        nk[0][1], nk[0][2], nk[0][4] = ("i4" if nk[0][1] != "i4" else "i2"), 0, False
        return cols, True
    if how == "name" and nk:
        nk[0][0] = "Other_" + nk[0][0]
        return cols, True
    if how == "null" and nk:
        nk[0][3] = not nk[0][3]
        return cols, True
    if how == "key" and nk and len(nk) > 0:
        nk[0][5] = True
        return cols, True
    if how == "more":
        return cols + [["zz_more", "s", 20, True, False, False]], False
    if how == "fewer":
        last = M.reorder([M.Col(*c) for c in cols])[-1].name
        return [c for c in cols if c[0] != last], False
    if how == "width" and st:
        st[0][2] = 50
    if how == "loc" and st:
        st[0][4] = not st[0][4]
    return cols, False


class P14(Prop):
    id = "P14"
    quick = 450
    thorough = 8000
    rule = ("a case is two generated databases that share some tables and rows (some with the same key and other values, some tables with other definitions) merged once or twice; "
            "non-trivial: a row is added to a table which both have, or there is a conflict")
    strategy = staticmethod(cases)

    def shrink(self, case):
        for i in range(len(case["tabs"])):
            if len(case["tabs"]) > 1:
                yield dict(case, tabs=case["tabs"][:i] + case["tabs"][i + 1:])
            for s in ("db", "merge"):
                for j in range(len(case["tabs"][i][s] or [])):
                    t = dict(case["tabs"][i])
                    t[s] = t[s][:j] + t[s][j + 1:]
                    yield dict(case, tabs=case["tabs"][:i] + [t] + case["tabs"][i + 1:])

    def run(self, case, env):
        d = case_dir(env)
        a, b = os.path.join(d, "a.msi"), os.path.join(d, "b.msi")
        db, mg = M.DB(), M.DB()
        sc = hist.Script()
        labels = set()
        sc.add(["open", "0", X(a), "2", "N"], hist.expect_ok)
        sc.add(["open", "1", X(b), "2", "N"], hist.expect_ok)
        refuse = False
        for t in case["tabs"]:
            for slot, m, s in ((0, db, "db"), (1, mg, "merge")):
                if t[s] is None:
                    continue
                cols = t["cols"]
                if s == "merge" and t["mis"]:
                    cols, bad = mismatch(cols, t["mis"])
                    refuse = refuse or bad
                    if cols != t["cols"]:
                        labels.add("mismatch-" + t["mis"])
                ops = [{"op": "create", "t": t["t"], "cols": cols}]
                if cols == t["cols"] or t["mis"] in ("width", "loc"):
                    ops += t[s]
                elif t["mis"] == "more":
                    ops += [dict(o, cols=o["cols"] + ["zz_more"], vals=o["vals"] + ["more"], par=o["par"] + [True]) for o in t[s]]
                elif t["mis"] == "fewer":
                    have = [c[0] for c in cols]
                    for o in t[s]:
                        k = [i for i, c in enumerate(o["cols"]) if c in have]
                        ops.append(dict(o, cols=[o["cols"][i] for i in k], vals=[o["vals"][i] for i in k], par=[o["par"][i] for i in k]))
                for op in ops:
                    sql, params, ok = m.apply(op)
                    sc.query(slot, sql, params, hist.expect_ok if ok else hist.expect_fail)
        if case["reopen"]:
            for slot, p in (("0", a), ("1", b)):
                sc.add(["commit", slot], hist.expect_ok)
                sc.add(["close", slot])
                sc.add(["open", slot, X(p), "4" if slot == "0" else "1", "N"], hist.expect_ok)
        added = 0
        conf = {}
        odd = any(t["mis"] in ("more", "fewer") for t in case["tabs"])      # rows of different width: merging them again is not specified
        for rnd in range(2 if case["again"] and not odd else 1):
            err = case["err"] and case["err"] + str(rnd)
            conf = {}
            if refuse:
                labels.add("refused")
                sc.add(["merge", "0", "1", X(err) if err else "N"], hist.expect_fail)
            else:
                new = {}
                for n, t in mg.t.items():
                    have = db.t.get(n)
                    k = t.keyidx()
                    mine = {repr([r[i] for i in k]): r for r in have.rows} if have else {}
                    bad = 0
                    add = []
                    for r in t.rows:
                        o = mine.get(repr([r[i] for i in k]))
                        if o is None:
                            add.append(r)
                        elif o != r:
                            bad += 1
                    if bad:
                        conf[n] = bad
                    else:
                        new[n] = add
                for n, add in new.items():
                    if n not in db.t:
                        db.t[n] = M.Table(n, mg.t[n].copy().cols)
                        labels.add("new-table")
                    elif add:
                        added += 1
                        labels.add("added")
                    w = len(db.t[n].cols)
                    for r in add:
                        db.t[n].rows.append((list(r) + [None] * w)[:w])
                        db.t[n].temp.append(False)
                if conf:
                    labels.add("conflict" if err else "conflict-noerr")
                    if err:
                        e = M.Table(err, [M.Col("Table", "s", 255, False, key=True), M.Col("NumRowMergeConflicts", "i2", null=False)])
                        e.rows = [[n, c] for n, c in conf.items()]
                        e.temp = [False] * len(e.rows)
                        db.t[err] = e
                sc.add(["merge", "0", "1", X(err) if err else "N"], hist.expect_fail if conf else hist.expect_ok)
            hist.full_dump(sc, 0, db.copy())
            hist.catalog(sc, 0, db.copy())
            hist.full_dump(sc, 1, mg)
        sc.add(["commit", "0"], hist.expect_ok)
        sc.add(["close", "0"])
        sc.add(["close", "1"])
        sc.run(env.drv)
        f = p05.parse(a, "merged file")
        p05.compare(db, f, "merged file")
        p05.strings_ok(f, "merged file")
        return bool(added or conf), labels


PROP = P14
