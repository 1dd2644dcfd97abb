"""Prepared queries: the result of each execution, the cursor protocol, and several queries (and databases) open at a time."""
import copy
import os

from hypothesis import strategies as st

from ..core import Prop, Violation, case_dir
from ..driver import X
from .. import hist
from .. import model as M

SLOTS = 5
MOD = ("insert", "update", "delete")


def places(db, op):
    """Where the parameters of a statement are, in the order of the statement: (get, set, column)."""
    out = []

    def put(seq, i):
        return lambda: M.dec_val(seq[i]), lambda v: seq.__setitem__(i, M.enc_val(v))

    def isparam(v, p):
        return p or M.lit(v) is None

    def cond(c, tabs):
        if c is None:
            return
        if c[0] in ("and", "or"):
            cond(c[1], tabs)
            cond(c[2], tabs)
        elif c[0] == "cmp" and c[3][0] in ("lit", "par") and isparam(M.dec_val(c[3][1]), c[3][0] == "par"):
            for t in tabs:
                i = db.t[t].col(c[2][1])
                if c[2][0] in (None, t) and i is not None:
                    c[3][0] = "par"
                    out.append(put(c[3], 1) + (db.t[t].cols[i], False))
                    break
    if op["op"] == "insert":
        t = db.t[op["t"]]
        for i, c in enumerate(op["cols"]):
            if isparam(M.dec_val(op["vals"][i]), op["par"][i]):
                op["par"][i] = True
                out.append(put(op["vals"], i) + (t.cols[t.col(c)], True))
    elif op["op"] == "update":
        t = db.t[op["t"]]
        for s in op["set"]:
            if isparam(M.dec_val(s[1]), s[2]):
                s[2] = True
                out.append(put(s, 1) + (t.cols[t.col(s[0])], True))
        cond(op.get("where"), [op["t"]])
    elif op["op"] == "delete":
        cond(op.get("where"), [op["t"]])
    else:
        cond(op.get("where"), op["t"])
    return out


def bound(db, op, vals):
    op = copy.deepcopy(op)
    ps = places(db, op)
    if vals is not None:
        for p, v in zip(ps, vals):
            p[1](M.dec_val(v))
    return op


@st.composite
def template(draw, db):
    names = sorted(db.t)
    k = draw(st.integers(0, 7))
    t = db.t[draw(st.sampled_from(names))]
    if k == 0:
        return draw(hist.insert_op(t, M.text()))
    if k == 1:
        op = draw(hist.update_op(t, M.text()))
        if op:
            return op
    if k == 2:
        return {"op": "delete", "t": t.name, "where": draw(hist.where_op(t))}
    return draw(hist.select_op(db, maxt=2))


@st.composite
def values(draw, db, op):
    out = []
    for g, s, col, nulls in places(db, copy.deepcopy(op)):
        k = draw(st.integers(0, 3))
        if k == 0:
            v = g()
        else:
            v = None
            if k == 1:
                # a value some row holds
                t = [t for t in db.t.values() if col in t.cols]
                have = [r[t[0].cols.index(col)] for r in t[0].rows] if t else []
                have = [h for h in have if h is not None]
                v = draw(st.sampled_from(have)) if have else None
            if v is None:
                v = draw(M.value(col, small=draw(st.booleans()), nulls=nulls))
        out.append(M.enc_val(v))
    return out


@st.composite
def cases(draw):
    dbs = [M.DB(), M.DB()] if draw(st.integers(0, 2)) == 0 else [M.DB()]
    setup = []
    for d, db in enumerate(dbs):
        for i in range(draw(st.integers(1, 2))):
            nm = draw(M.tname().filter(lambda s: s not in db.t))
            op = {"op": "create", "t": nm, "cols": [c.json() for c in draw(M.columns(maxcols=4))]}
            db.apply(op)
            setup.append([d, op])
            for j in range(draw(st.integers(0, 9))):
                op = draw(hist.insert_op(db.t[nm], M.text()))
                db.apply(op)
                setup.append([d, op])
    slots = {}
    steps = []
    for i in range(draw(st.integers(6, 28))):
        k = draw(st.integers(0, 15))
        s = draw(st.integers(0, SLOTS - 1))
        if k < 5 or not slots:
            d = draw(st.integers(0, len(dbs) - 1))
            if not dbs[d].t:
                continue
            if s in slots and draw(st.booleans()):
                s = min([x for x in range(SLOTS) if x not in slots], default=s)
            op = draw(template(dbs[d]))
            slots[s] = [d, op]
            steps.append(["prep", s, d, op])
            if draw(st.integers(0, 3)):
                steps.append(["exec", s, None])
        else:
            s = draw(st.sampled_from(sorted(slots)))
            d, op = slots[s]
            tabs = [op["t"]] if op["op"] in MOD else op["t"]
            alive = all(t in dbs[d].t for t in tabs)
            if k < 8:
                if alive:
                    v = draw(values(dbs[d], op))
                    steps.append(["exec", s, v])
                    if op["op"] in MOD:
                        dbs[d].apply(bound(dbs[d], op, v))
            elif k < 12:
                steps.append(["fetch", s, draw(st.sampled_from([1, 1, 2, 3, 50]))])
            elif k == 12:
                steps.append(["info", s])
            elif k == 13:
                steps.append([draw(st.sampled_from(["close", "close", "free"])), s])
                if steps[-1][0] == "free":
                    del slots[s]
            else:
                d = draw(st.integers(0, len(dbs) - 1))
                if not dbs[d].t:
                    continue
                t = dbs[d].t[draw(st.sampled_from(sorted(dbs[d].t)))]
                r = draw(st.integers(0, 19))
                if r == 0:
                    op = {"op": "drop", "t": t.name}
                elif r == 1:
                    op = {"op": "commit", "t": None}
                elif r == 2:
                    op = {"op": "addcol", "t": t.name, "col": M.Col("zz%d" % len(steps), "s", 10).json()}
                elif r < 9:
                    op = draw(hist.insert_op(t, M.text()))
                elif r < 13:
                    op = {"op": "delete", "t": t.name, "where": draw(hist.where_op(t))}
                else:
                    op = draw(hist.update_op(t, M.text()))
                if op:
                    steps.append(["dml", d, op])
                    if op["op"] != "commit":
                        dbs[d].apply(op)
    return {"n": len(dbs), "setup": setup, "steps": steps}


class Slot:
    def __init__(self, d, op, names):
        self.d, self.op = d, op
        self.names = names
        self.tabs = [op["t"]] if op["op"] in MOD else list(op["t"])
        self.state = "new"          # new, open, ended, closed, stale; dead: its tables changed shape
        self.left = None


class P30(Prop):
    id = "P30"
    quick = 320
    thorough = 7000
    rule = ("a case is one or two databases with generated tables and rows and up to 28 steps over up to five prepared queries: "
            "prepare, execute with new parameter values, fetch part or all of the rows, column information, close, release, and direct "
            "modifications; non-trivial: a query is executed at least twice, or two result sets are read by turns, or a result set "
            "left partly read is executed again")

    def strategy(self):
        return cases()

    def run(self, case, env):
        tmp = case_dir(env)
        dbs = [M.DB() for _ in range(case["n"])]
        sc = hist.Script()
        ok, bad = hist.expect_ok, hist.expect_fail
        for d in range(case["n"]):
            sc.add(["open", str(d), X(os.path.join(tmp, "d%d.msi" % d)), "2", "N"], ok)
        for d, op in case["setup"]:
            sql, params, good = dbs[d].apply(op)
            sc.query(d, sql, params, ok if good else bad)
        slots = {}
        labels = set()
        nexec, nt = {}, False
        last = None

        def changed(d, t, dead=False):
            for q in slots.values():
                if q.d == d and (t is None or t in q.tabs):
                    if q.state in ("open", "ended"):
                        q.state = "stale"
                    if dead:
                        q.state = "dead"

        def nofetch(r):
            if r.get("row") is not None:
                return "a query that selects nothing returned a row"

        for step in case["steps"]:
            k = step[0]
            if k == "prep":
                _, s, d, op = step
                tabs = [op["t"]] if op["op"] in MOD else op["t"]
                if not all(t in dbs[d].t for t in tabs):
                    continue
                op = bound(dbs[d], op, None)
                sql = sql_of(dbs[d], op)[0]
                sc.add(["qnew", str(s), str(d), X(sql)], ok)
                slots[s] = Slot(d, op, dbs[d].columns(op) if op["op"] == "select" else None)
                nexec[s] = 0
                labels.add("prep-" + op["op"])
                continue
            if k == "dml":
                _, d, op = step
                if op["op"] == "commit":
                    sc.add(["commit", str(d)], ok)
                    dbs[d] = dbs[d].committed()
                    changed(d, None, True)
                    labels.add("commit")
                    continue
                if op["t"] not in dbs[d].t:
                    continue
                if any(q.d == d and op["t"] in q.tabs and q.state in ("open", "ended") for q in slots.values()):
                    labels.add("modified-under-a-query")
                sql, params, good = dbs[d].apply(op)
                sc.query(d, sql, params, ok if good else bad)
                changed(d, op["t"], op["op"] in ("drop", "addcol"))
                continue
            s = step[1]
            q = slots.get(s)
            if q is None:
                continue
            if k == "exec":
                if q.state == "dead":
                    if q.op["op"] == "select":
                        # no promise but that nothing breaks
                        args = [M.P2(v) for v in sql_of_params(q)]
                        sc.add(["qexec", str(s)] + args)
                        labels.add("exec-after-shape-change")
                    continue
                db = dbs[q.d]
                op = bound(db, q.op, step[2])
                if q.state in ("open", "ended", "closed", "stale"):
                    labels.add("again-after-" + q.state)
                    if q.state == "open" and q.left:
                        nt = True
                nexec[s] += 1
                if nexec[s] > 1:
                    nt = True
                if op["op"] == "select":
                    sql, params, rows, keys = db.select(op)
                    sc.add(["qexec", str(s)] + [M.P2(p) for p in params], ok)
                    q.left = Cursor(rows, keys, op)
                    q.state = "open"
                else:
                    sql, params, good = db.apply(op)
                    sc.add(["qexec", str(s)] + [M.P2(p) for p in params], ok if good else bad)
                    labels.add("exec-" + op["op"] + ("" if good else "-refused"))
                    changed(q.d, op["t"])
                    q.state = "open"
                    dump(sc, q.d, db, op["t"])
            elif k == "fetch":
                for i in range(step[2]):
                    if q.op["op"] != "select":
                        sc.add(["qfetch", str(s)], nofetch if q.state == "open" else None)
                        break
                    if q.state not in ("open", "ended"):
                        sc.add(["qfetch", str(s)])
                        if i > 3:
                            break
                        continue
                    if last is not None and last != s and slots.get(last) and slots[last].state == "open" and slots[last].left:
                        labels.add("by-turns")
                        nt = True
                    last = s
                    sc.add(["qfetch", str(s)], q.left.check(q.left.n + 1))
                    q.left.n += 1
                    if q.left.n > len(q.left.rows):
                        q.state = "ended"
                        labels.add("past-the-end" if q.left.n > len(q.left.rows) + 1 else "to-the-end")
                        if q.left.n > len(q.left.rows) + 2:
                            break
            elif k == "info":
                if q.op["op"] == "select" and q.state != "dead":
                    sc.add(["qinfo", str(s)], info(q.names))
                    labels.add("info-" + q.state)
                else:
                    sc.add(["qinfo", str(s)])
            elif k == "close":
                sc.add(["qclose", str(s)], ok if q.state in ("open", "ended") and q.op["op"] == "select" else None)
                if q.state != "dead":
                    q.state = "closed"
            elif k == "free":
                sc.add(["qfree", str(s)])
                del slots[s]
                labels.add("free")
        for s in sorted(slots):
            sc.add(["qfree", str(s)])
        for d in range(case["n"]):
            hist.full_dump(sc, d, dbs[d])
            sc.add(["close", str(d)])
        sc.run(env.drv)
        if case["n"] > 1:
            labels.add("two-databases")
        return nt, labels


def sql_of(db, op):
    if op["op"] == "select":
        return db.select(op)[:2]
    return db.copy().apply(op)[:2]


def sql_of_params(q):
    return [1] * 8


def dump(sc, d, db, t):
    sql, params, f = hist.expect_select(db, {"t": [t], "cols": None})
    sc.query(d, sql, params, f)


def info(names):
    def f(r):
        if r.get("names") != [n[0] for n in names] or r.get("types") != [n[1] for n in names]:
            return "column information %r %r, expected %r" % (r.get("names"), r.get("types"), names)
    return f


class Cursor:
    """The rows one execution must deliver: each of them once, then none."""
    def __init__(self, rows, keys, op):
        self.rows, self.keys, self.op = rows, keys, op
        self.rest = M.multiset(rows)
        self.n = 0
        self.got = []

    def __bool__(self):
        return self.n < len(self.rows)

    def check(self, n):
        def f(r):
            row = r.get("row")
            if n > len(self.rows):
                if row is not None:
                    return "a row after the last one"
                if r.get("code") or r.get("err"):
                    return "the end of the rows is reported as an error"
                return
            if row is None:
                return "no row, %d of %d were read" % (n - 1, len(self.rows))
            row = [None if v == "" else v for v in row]
            k = repr(row)
            if k not in self.rest:
                return "row %s is not one of those left: %s" % (k[:200], hist.short(self.rest, 300))
            self.rest.remove(k)
            self.got.append(row)
            if self.op.get("order"):
                pool = {}
                for a, b in zip(self.rows, self.keys):
                    pool.setdefault(repr(a), []).append(b)
                ks = [pool[repr(g)] for g in self.got]
                if all(len(set(map(repr, x))) == 1 for x in ks) and not M.check_order([x[0] for x in ks]):
                    return "rows are not in the ORDER BY order"
        return f


PROP = P30
