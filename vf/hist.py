"""Histories of operations on one database: generation and execution against the model."""
import os
import random

from hypothesis import strategies as st

from . import model as M, msifmt
from .core import Violation, case_dir
from .driver import X, P, describe

DEFAULT_W = {"create": 2, "insert": 10, "update": 3, "delete": 2, "select": 3, "addcol": 1, "drop": 1,
             "commit": 1, "reopen": 2, "rollback": 0, "bad": 1, "stream": 0, "bulk": 0}


@st.composite
def history(draw, w=None, maxops=25, binary=False, textkind="latin", maxtables=4, temp=True, longs=False):
    w = dict(DEFAULT_W, **(w or {}))
    db = M.DB()
    saved = db.copy()
    ops = []
    streams = {}
    n = draw(st.integers(3, maxops))
    kinds = [k for k, c in w.items() for _ in range(c)]
    txt = M.text(textkind)
    while len(ops) < n:
        k = draw(st.sampled_from(kinds)) if db.t else "create"
        names = sorted(db.t)
        op = None
        if k == "create":
            if len(names) >= maxtables:
                continue
            nm = draw(M.tname().filter(lambda s: s not in db.t))
            cols = draw(M.columns(binary=binary))
            op = {"op": "create", "t": nm, "cols": [c.json() for c in cols]}
        elif k == "insert" or k == "bad":
            t = db.t[draw(st.sampled_from(names))]
            op = draw(insert_op(t, txt, temp=temp, bad=(k == "bad"), longs=longs))
            if M.has_binary(t) and not claim_stream(streams, t, op):
                continue
        elif k == "update":
            t = db.t[draw(st.sampled_from(names))]
            op = draw(update_op(t, txt))
            if op is None:
                continue
        elif k == "delete":
            t = db.t[draw(st.sampled_from(names))]
            op = {"op": "delete", "t": t.name, "where": draw(where_op(t))}
        elif k == "select":
            op = draw(select_op(db, maxt=2))
            if op is None:
                continue
        elif k == "bulk":
            t = db.t[draw(st.sampled_from(names))]
            if M.has_binary(t) or len(t.rows) > 300:
                continue
            op = {"op": "bulk", "t": t.name, "n": draw(st.sampled_from([40, 90, 200, 400])), "seed": draw(st.integers(0, 999))}
        elif k == "addcol":
            t = db.t[draw(st.sampled_from(names))]
            if len(t.cols) >= 30 or t.temporary:
                continue
            c = draw(M.columns(maxcols=1, binary=False))[0]
            c.key, c.null = False, True
            op = {"op": "addcol", "t": t.name, "col": c.json()}
        elif k == "drop":
            op = {"op": "drop", "t": draw(st.sampled_from(names))}
            if db.t[op["t"]].temporary:
                continue        # not specified
        elif k == "badraw":
            op = draw(bad_statement(db))
        elif k == "badupdate":
            t = db.t[draw(st.sampled_from(names))]
            op = draw(bad_update(t, txt))
            if op is None:
                continue
        elif k == "tcreate":
            if len(names) >= maxtables:
                continue
            nm = draw(M.tname().filter(lambda s: s not in db.t))
            op = {"op": "tcreate", "t": nm, "cols": [c[:4] + [False] + c[5:] for c in (c.json() for c in draw(M.columns(binary=False)))], "hold": draw(st.integers(0, 3)) > 0}
        elif k == "hold":
            # a HOLD and its FREE leave everything as it was
            op = {"op": "raw2", "sql": ["ALTER TABLE `%s` HOLD", "ALTER TABLE `%s` FREE"], "t": draw(st.sampled_from(names))}
        else:
            op = {"op": k}
            if k in ("commit", "reopen"):
                saved = db.committed()
                db = saved.copy()
            elif k == "rollback":
                db = saved.copy()
        if op["op"] == "bulk":
            for o in bulk(db, op):
                db.apply(o)
        elif op["op"] not in ("select", "commit", "reopen", "rollback", "raw", "raw2"):
            db.apply(op)
        ops.append(op)
    return ops


def strings_65536():
    """Databases that grow past 65536 strings, where references to strings become longer, and shrink again."""
    cols = [["k", "i4", 0, False, False, True]] + [["c%d" % i, "s", 0, True, False, False] for i in range(29)]
    two = [["k", "i4", 0, False, False, True], ["c0", "s", 0, True, False, False]]
    out = []
    for n in (20, 21, 22, 23):
        out.append([{"op": "create", "t": "T", "cols": cols}, {"op": "create", "t": "U", "cols": two},
                    {"op": "bulk", "t": "T", "n": 2258, "seed": 1, "unique": True},
                    {"op": "bulk", "t": "U", "n": n, "seed": 2, "unique": True}, {"op": "reopen"},
                    {"op": "delete", "t": "T", "where": ["cmp", ">", [None, "k"], ["lit", 0]]} if n == 23 else
                    {"op": "bulk", "t": "U", "n": 3, "seed": 3, "unique": True}])
    # one string that is used more often than a count can say
    for n in (2258, 2259, 2260):
        out.append([{"op": "create", "t": "T", "cols": cols}, {"op": "create", "t": "U", "cols": two},
                    {"op": "bulk", "t": "T", "n": n, "seed": 1, "same": True}, {"op": "bulk", "t": "U", "n": 65536 - 29 * n if n < 2260 else 3, "seed": 2, "same": True},
                    {"op": "reopen"}, {"op": "delete", "t": "T", "where": ["cmp", ">", [None, "k"], ["lit", 0]]}, {"op": "reopen"}])
    return out


def expand(db, ops):
    """ops with the inserts of bulk operations spelled out; db follows them."""
    out = []
    for op in ops:
        for o in bulk(db, op) if op["op"] == "bulk" else [op]:
            db.apply(o)
            out.append(o)
    return out


def bulk(db, op):
    """The inserts a bulk operation stands for: many rows, all of them valid."""
    t = db.t[op["t"]]
    rnd = random.Random(op["seed"])
    span = op["n"] * 2
    keys = t.keyidx()
    seen = {tuple(r[i] for i in keys) for r in t.rows}
    out = []
    for j in range(op["n"]):
        row = []
        for c in t.cols:
            if c.null and not c.key and not op.get("unique") and not op.get("same") and rnd.random() < 0.1:
                row.append(None)
            elif c.kind == "s" and op.get("same"):
                row.append("same")
            elif c.kind == "s" and op.get("unique"):
                row.append("u%x.%x.%x" % (op["seed"], j, len(row)))
            elif c.kind == "s":
                row.append("%s%d" % (rnd.choice("abé"), rnd.randrange(span)) if c.key or rnd.random() < 0.7 else "w%d" % rnd.randrange(12))
            elif c.kind == "i2":
                row.append(rnd.randrange(-32767, 32768) if c.key or rnd.random() < 0.5 else rnd.randrange(4))
            else:
                row.append(rnd.randrange(-2**31 + 1, 2**31) if c.key or rnd.random() < 0.5 else rnd.randrange(4))
        k = tuple(row[i] for i in keys)
        if k in seen:
            continue
        seen.add(k)
        out.append({"op": "insert", "t": t.name, "cols": [c.name for c in t.cols], "vals": [M.enc_val(v) for v in row],
                    "par": [v is None or rnd.random() < 0.5 for v in row]})
    return out


def claim_stream(streams, t, op):
    """Different rows have different stream names, and names fit into the file format."""
    row = [None] * len(t.cols)
    for c, v in zip(op["cols"], op["vals"]):
        row[t.col(c)] = M.dec_val(v)
    nm = M.stream_name(t, row)
    key = [t.name] + [row[i] for i in t.keyidx()]
    return len(msifmt.encode_name(nm)) <= 31 and streams.setdefault(nm, key) == key


@st.composite
def insert_op(draw, t, txt, temp=False, bad=False, longs=False):
    cols = list(t.cols)
    if draw(st.integers(0, 3)) == 0:
        opt = [c for c in cols if not (c.key or not c.null)]
        opt = [c for c in opt if c.kind != "b"]
        drop = draw(st.sets(st.sampled_from([c.name for c in opt]))) if opt else set()
        cols = [c for c in cols if c.name not in drop]
    if draw(st.booleans()):
        cols = draw(st.permutations(cols))
    vals = []
    for c in cols:
        small = draw(st.integers(0, 2)) == 0 if c.key else draw(st.booleans())
        if c.key and c.kind == "s" and M.has_binary(t):
            vals.append(draw(st.one_of(st.sampled_from(["a", "b", "k.1", "A", "x y", "a-b", "a/b"]), M.idents(9))))
            continue
        vals.append(draw(M.value(c, txt, small=small, nulls=not (c.key and M.has_binary(t)))))
    if longs:
        # "\0" + n stands for a long string
        for i, c in enumerate(cols):
            if c.kind == "s" and not c.key and draw(st.integers(0, 3)) == 0:
                vals[i] = draw(st.sampled_from("abcd")) * draw(st.sampled_from([255, 4095, 4096, 65535, 65536, 65537, 70000, 131072, 140001]))
    if bad:
        keys = t.keyidx()
        choice = draw(st.integers(0, 2))
        if choice == 0 and t.rows:
            src = t.rows[draw(st.integers(0, len(t.rows) - 1))]
            for i, c in enumerate(cols):
                if c.key:
                    vals[i] = src[t.col(c.name)]
        elif choice == 1:
            cand = [i for i, c in enumerate(cols) if not c.null and c.kind != "b"]
            if cand:
                vals[draw(st.sampled_from(cand))] = None
        else:
            cand = [i for i, c in enumerate(cols) if c.kind == "i2"]
            if cand:
                vals[draw(st.sampled_from(cand))] = draw(st.sampled_from([32768, 40000, -40000, 65536, 100000]))
    par = [draw(st.booleans()) or v is None for v in vals]
    return {"op": "insert", "t": t.name, "cols": [c.name for c in cols], "vals": [M.enc_val(v) for v in vals], "par": par,
            "temp": temp and draw(st.integers(0, 5)) == 0}


@st.composite
def where_op(draw, t):
    if draw(st.integers(0, 7)) == 0:
        return None
    refs = [([None, c.name], c) for c in t.cols]
    if t.rows and draw(st.integers(0, 1)):
        # aim at an existing row
        r = t.rows[draw(st.integers(0, len(t.rows) - 1))]
        cand = [i for i, c in enumerate(t.cols) if c.kind != "b" and r[i] is not None]
        if cand:
            i = draw(st.sampled_from(cand))
            ops = ["=", "<>"] if t.cols[i].kind == "s" else ["=", "<>", "<", ">", "<=", ">="]
            c = ["cmp", draw(st.sampled_from(ops)), [None, t.cols[i].name], [draw(st.sampled_from(["lit", "par"])), r[i]]]
            if draw(st.integers(0, 2)) == 0:
                return [draw(st.sampled_from(["and", "or"])), c, draw(M.condition(refs, 1))]
            return c
    return draw(M.condition(refs))


@st.composite
def update_op(draw, t, txt):
    cand = [c for c in t.cols if not c.key and c.kind != "b"]
    if not cand:
        return None
    cs = draw(st.lists(st.sampled_from(cand), min_size=1, max_size=min(3, len(cand)), unique_by=lambda c: c.name))
    sets = []
    for c in cs:
        v = draw(M.value(c, txt, small=draw(st.booleans())))
        sets.append([c.name, v, v is None or draw(st.booleans())])
    return {"op": "update", "t": t.name, "set": sets, "where": draw(where_op(t))}


@st.composite
def bad_update(draw, t, txt):
    """An UPDATE that must be rejected when any row matches: a key column, or an integer that does not fit, last."""
    keys = [c for c in t.cols if c.key]
    i2 = [c for c in t.cols if c.kind == "i2" and not c.key]
    others = [c for c in t.cols if not c.key and c.kind != "b"]
    sets = []
    if i2 and draw(st.integers(0, 2)):
        c = draw(st.sampled_from(i2))
        bad = [c.name, draw(st.sampled_from([32768, 40000, -40000, 65536, 100000])), draw(st.booleans())]
    else:
        c = draw(st.sampled_from(keys))
        bad = [c.name, draw(M.value(c, txt, nulls=False)), True]
    rest = [x for x in others if x.name != bad[0]]
    for x in draw(st.lists(st.sampled_from(rest), max_size=2, unique_by=lambda c: c.name)) if rest else []:
        sets.append([x.name, draw(M.value(x, txt, small=True)), True])
    sets.insert(draw(st.integers(0, len(sets))), bad)
    return {"op": "update", "t": t.name, "set": sets, "where": draw(where_op(t))}


@st.composite
def bad_statement(draw, db):
    """Statements naming what does not exist, or with the wrong number of values: refused, and nothing changes."""
    t = db.t[draw(st.sampled_from(sorted(db.t)))]
    no = "nope_nope"
    c0 = t.cols[0].name
    n = len(t.cols)
    k = draw(st.sampled_from([
        "INSERT INTO `%s` (`%s`) VALUES (1)" % (no, c0),
        "INSERT INTO `%s` (`%s`) VALUES (1)" % (t.name, no),
        "UPDATE `%s` SET `%s` = 1" % (no, c0),
        "UPDATE `%s` SET `%s` = 1" % (t.name, no),
        "UPDATE `%s` SET `%s` = 1 WHERE `%s` = 1" % (t.name, t.cols[-1].name, no),
        "DELETE FROM `%s`" % no,
        "DELETE FROM `%s` WHERE `%s` = 1" % (t.name, no),
        "SELECT * FROM `%s`" % no,
        "SELECT * FROM `%s` WHERE `%s` = 1" % (t.name, no),
        "SELECT `%s` FROM `%s` ORDER BY `%s`" % (c0, t.name, no),
        "SELECT `%s`.`%s` FROM `%s`" % (no, c0, t.name),
        "DROP TABLE `%s`" % no,
        "ALTER TABLE `%s` ADD `x` SHORT" % no,
        "ALTER TABLE `%s` ADD `%s` SHORT" % (no if t.temporary else t.name, c0),
        "CREATE TABLE `%s` (`a` SHORT NOT NULL PRIMARY KEY `a`)" % t.name,
        "CREATE TABLE `%s` (`a` SHORT NOT NULL, `a` SHORT PRIMARY KEY `a`)" % no,
        "CREATE TABLE `%s` (`a` SHORT NOT NULL PRIMARY KEY `b`)" % no,
        "CREATE TABLE `%s` (`a` SHORT NOT NULL)" % no,
        "DELETE `%s`" % t.name,
        "SELECT FROM `%s`" % t.name,
        "INSERT INTO `%s` (`%s`) VALUES (" % (t.name, c0),
        "DROP `%s`" % t.name,
        "",
    ] + (["INSERT INTO `%s` (%s) VALUES (%s)" % (t.name, ", ".join("`%s`" % c.name for c in t.cols),
                                                ", ".join("77" if c.kind != "s" else "'77'" for c in t.cols[:-1]))] if n > 1 else [])))
    return {"op": "raw", "sql": k, "t": t.name}


@st.composite
def prepared(draw, rows=14, selects=8, maxt=3, binary=False):
    """Tables filled with rows, then queries over them."""
    db = M.DB()
    ops = []
    nt = draw(st.integers(1, 3))
    for i in range(nt):
        nm = draw(M.tname().filter(lambda s: s not in db.t))
        op = {"op": "create", "t": nm, "cols": [c.json() for c in draw(M.columns(binary=binary, maxcols=5))]}
        db.apply(op)
        ops.append(op)
        for j in range(draw(st.integers(0, rows if nt == 1 else rows // 2))):
            op = draw(insert_op(db.t[nm], M.text(), temp=False))
            db.apply(op)
            ops.append(op)
        if not binary and draw(st.integers(0, 5)) == 0:
            op = {"op": "bulk", "t": nm, "n": draw(st.sampled_from([30, 60, 150])), "seed": draw(st.integers(0, 999))}
            for o in bulk(db, op):
                db.apply(o)
            ops.append(op)
    if draw(st.booleans()):
        ops.append({"op": "commit"} if draw(st.booleans()) else {"op": "reopen"})
    for i in range(draw(st.integers(2, selects))):
        ops.append(draw(select_op(db, maxt=maxt)))
    return ops


@st.composite
def select_op(draw, db, maxt=3, names=None):
    names = names or sorted(db.t)
    nt = draw(st.integers(1, min(maxt, len(names))))
    tabs = draw(st.permutations(names))[:nt]
    size = 1
    for n in tabs:
        size *= max(1, len(db.t[n].rows))
    if size > 3000:
        tabs = tabs[:1]
    refs = []
    allcols = [c.name for n in tabs for c in db.t[n].cols]
    for n in tabs:
        for c in db.t[n].cols:
            qual = allcols.count(c.name) > 1 or draw(st.integers(0, 3)) == 0
            refs.append(([n if qual else None, c.name], c))
    nb = [r for r, c in refs if c.kind != "b"]
    op = {"op": "select", "t": tabs, "cols": None, "where": None, "distinct": False, "order": []}
    if nb and draw(st.integers(0, 2)):
        op["cols"] = draw(st.lists(st.sampled_from([r for r, c in refs]), min_size=1, max_size=4))
    usable = [c for r, c in refs] if op["cols"] is None else []
    if draw(st.integers(0, 3)):
        op["where"] = draw(M.condition(refs))
        joins = [(a, b) for a, ca in refs for b, cb in refs
                 if a != b and M.comparable(ca, cb)]
        if nt > 1 and joins and draw(st.booleans()):
            a, b = draw(st.sampled_from(joins))
            op["where"] = ["and", ["cmp", "=", a, ["col", b]], op["where"]]
    kinds = {tuple(r): c.kind for r, c in refs}
    chosen = op["cols"] if op["cols"] is not None else [r for r, c in refs]
    if nb and draw(st.integers(0, 3)) == 0 and all(kinds[tuple(r)] != "b" for r in chosen):
        op["distinct"] = True
    if nb and draw(st.integers(0, 2)) == 0:
        op["order"] = draw(st.lists(st.sampled_from(nb), min_size=1, max_size=draw(st.sampled_from([2, 2, 4])), unique_by=tuple))
        if op["distinct"]:
            inn = [r for r in op["order"] if r in chosen]
            op["order"] = inn
    return op


class Script:
    """A driver script with a check attached to every operation."""
    def __init__(self):
        self.ops = []
        self.checks = []

    def add(self, op, check=None):
        self.ops.append(op)
        self.checks.append(check)

    def query(self, s, sql, params, check):
        self.add(["q", str(s), X(sql)] + [M.P2(p) for p in params], check)

    def run(self, drv):
        res = drv.run(self.ops)
        for i, (o, c, r) in enumerate(zip(self.ops, self.checks, res)):
            if c is not None:
                m = c(r)
                if m:
                    tail = [describe(x)[:160] for x in self.ops[max(0, i - 8):i]]
                    raise Violation("op %d %s: %s\n  got %s\n  after:\n    %s" % (i, describe(o)[:400], m, short(r), "\n    ".join(tail)))
        return res


def short(r, n=600):
    t = repr(r)
    return t if len(t) <= n else t[:n] + "..."


def expect_ok(r):
    if r.get("st", "ok") != "ok" or r.get("ok") is False:
        return "must succeed, failed"


def expect_fail(r):
    if r.get("st") == "ok" or r.get("ok") is True:
        return "must be rejected, succeeded"


def expect_rows(rows):
    want = M.multiset(rows)

    def f(r):
        if r.get("st") != "ok":
            return "SELECT failed"
        got = M.multiset([[None if v == "" else v for v in row] for row in r["rows"]])
        if got != want:
            extra = [g for g in got if g not in want]
            miss = [g for g in want if g not in got]
            return "rows differ: unexpected %s, missing %s (%d got, %d expected)" % (short(extra, 300), short(miss, 300), len(got), len(want))
    return f


def expect_select(model, op):
    sql, params, rows, keys = model.select(op)
    cols = model.columns(op)
    base = expect_rows(rows)
    names = [c[0] for c in cols]
    types = [c[1] for c in cols]

    def f(r):
        m = base(r)
        if m:
            return m
        if r.get("names") != names:
            return "column names %r, expected %r" % (r.get("names"), names)
        if r.get("types") != types:
            return "column types %r, expected %r" % (r.get("types"), types)
        if op.get("order"):
            # identify each result row with the keys of a model row of the same content
            pool = {}
            for row, k in zip(rows, keys):
                pool.setdefault(repr(row), []).append(k)
            ks = [pool[repr([None if v == "" else v for v in row])] for row in r["rows"]]
            if all(len(set(map(repr, k))) == 1 for k in ks):
                if not M.check_order([k[0] for k in ks]):
                    return "rows are not in the ORDER BY order"
    return sql, params, f


def full_dump(sc, s, db):
    for n in sorted(db.t):
        t = db.t[n]
        sql, params, f = expect_select(db, {"t": [n], "cols": None})
        sc.query(s, sql, params, f)


def catalog(sc, s, db, persistent=None):
    """_Tables lists exactly the tables; _Columns describes exactly their columns."""
    want = [[n] for n in sorted(db.t)]

    def tabs(r):
        return expect_rows(want)(r)
    sc.query(s, "SELECT * FROM `_Tables`", [], tabs)
    rows = [[n, i + 1, c.name] for n in db.t for i, c in enumerate(db.t[n].cols) if not db.t[n].temporary]
    sc.query(s, "SELECT `Table`, `Number`, `Name` FROM `_Columns`", [], expect_rows(rows))
    for n in sorted(db.t):
        keys = [c.name for c in db.t[n].cols if c.key]

        def pk(r, keys=keys, n=n):
            if not r.get("keys") or r["keys"] != [n] * 0 + keys:
                return "primary keys %r, expected %r" % (r.get("keys"), keys)
        if not db.t[n].temporary:
            sc.add(["pk", str(s), X(n)], pk)

        def tpers(r, t=db.t[n]):
            if bool(r.get("v")) == t.temporary:
                return "table %s reported %spersistent" % (t.name, "" if t.temporary else "not ")
        sc.add(["tpers", str(s), X(n)], tpers)


def run_history(case, env, transact=False, dump_every=True, catalog_every=False, dump_all=False):
    d = case_dir(env)
    path = os.path.join(d, "h.msi")
    db, saved = M.DB(), M.DB()
    sc = Script()
    flags = "2"
    sc.add(["open", "0", X(path), flags, "N"], expect_ok)
    if transact:
        # an empty committed database, then reopened for transactions
        sc.add(["commit", "0"], expect_ok)
        sc.add(["close", "0"])
        sc.add(["open", "0", X(path), "4", "N"], expect_ok)
    labels = set()
    if any(op.get("unique") for op in case):
        sc.add(["cpu", "200"])
    for op in case:
        k = op["op"]
        labels.add(k)
        if k == "select":
            sql, params, f = expect_select(db, op)
            sc.query(0, sql, params, f)
            if len(op["t"]) > 1:
                labels.add("select-join")
            if op.get("distinct"):
                labels.add("select-distinct")
            if op.get("order"):
                labels.add("select-order")
            continue
        if k in ("commit", "reopen"):
            sc.add(["commit", "0"], expect_ok)
            saved = db.committed()
            if k == "reopen":
                sc.add(["close", "0"])
                sc.add(["open", "0", X(path), "4", "N"], expect_ok)
            db = saved.copy()       # temporary rows end with the transaction
            full_dump(sc, 0, db)
            if catalog_every:
                catalog(sc, 0, db)
            continue
        if k == "rollback":
            sc.add(["close", "0"])
            sc.add(["open", "0", X(path), "4", "N"], expect_ok)
            db = saved.copy()
            full_dump(sc, 0, db)
            if catalog_every:
                catalog(sc, 0, db)
            continue
        if k in ("raw", "raw2"):
            db.t[op["t"]]       # a case cut short by minimisation is not a case
        if k == "raw":
            sc.query(0, op["sql"], [], expect_fail)
            full_dump(sc, 0, db)
            if catalog_every:
                catalog(sc, 0, db)
            continue
        if k == "raw2":
            for q in op["sql"]:
                sc.query(0, q % op["t"], [], expect_ok)
            full_dump(sc, 0, db)
            continue
        if k == "bulk":
            for o in bulk(db, op):
                sql, params, ok = db.apply(o)
                sc.query(0, sql, params, expect_ok)
            labels.add("rows:%d+" % (len(db.t[op["t"]].rows) // 100 * 100))
            full_dump(sc, 0, db)
            continue
        if k in ("update", "delete") and db.where_rows(db.t[op["t"]], op.get("where")):
            labels.add(k + "-hit")
        sql, params, ok = db.apply(op)
        if not ok:
            labels.add("rejected-" + k)
        sc.query(0, sql, params, expect_ok if ok else expect_fail)
        if dump_all:
            full_dump(sc, 0, db)
        elif dump_every and op["t"] in db.t:
            sql, params, f = expect_select(db, {"t": [op["t"]], "cols": None})
            sc.query(0, sql, params, f)
        if catalog_every and k in ("create", "drop", "addcol", "tcreate"):
            catalog(sc, 0, db)
    # finally: commit, reopen read-only, compare everything
    sc.add(["commit", "0"], expect_ok)
    sc.add(["close", "0"])
    sc.add(["open", "0", X(path), "1", "N"], expect_ok)
    db = db.committed()
    full_dump(sc, 0, db)
    if catalog_every:
        catalog(sc, 0, db)
    sc.add(["close", "0"])
    sc.run(env.drv)
    return labels, db, path
