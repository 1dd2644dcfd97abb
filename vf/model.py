"""A relational reference model of an MSI database, and generators of operations on it.

Values: None, int, str, bytes (binary columns).  An empty string is the same as None.
Null integers order before every integer; strings compare only for (in)equality.
"""
from hypothesis import strategies as st

from .driver import X, P

KINDS = ("s", "i2", "i4", "b")


class Col:
    temporary = False

    def __init__(self, name, kind, width=0, null=True, loc=False, key=False):
        self.name, self.kind, self.width, self.null, self.loc, self.key = name, kind, width, null, loc, key

    def typestr(self):
        """As libmsi_query_get_column_info(TYPES) and IDT files write it."""
        if self.temporary:
            c = "g" if self.kind == "s" else "j"
        else:
            c = {"s": "l" if self.loc else "s", "i2": "i", "i4": "i", "b": "v"}[self.kind]
        w = {"s": self.width, "i2": 2, "i4": 4, "b": 0}[self.kind]
        return (c.upper() if self.null else c) + str(w)

    def sql(self):
        t = {"s": "CHAR(%d)" % self.width if self.width else "LONGCHAR", "i2": "SHORT", "i4": "LONG", "b": "OBJECT"}[self.kind]
        return "`%s` %s%s%s" % (self.name, t, "" if self.null else " NOT NULL", " LOCALIZABLE" if self.loc else "")

    def json(self):
        return [self.name, self.kind, self.width, self.null, self.loc, self.key]


class Table:
    def __init__(self, name, cols):
        self.name = name
        self.cols = cols
        self.rows = []          # lists of values
        self.temp = []          # parallel: row is temporary
        self.temporary = False

    def keyidx(self):
        return [i for i, c in enumerate(self.cols) if c.key]

    def col(self, name):
        for i, c in enumerate(self.cols):
            if c.name == name:
                return i
        return None

    def copy(self):
        t = Table(self.name, [Col(*c.json()) for c in self.cols])
        for c in t.cols:
            c.temporary = self.temporary
        t.rows = [list(r) for r in self.rows]
        t.temp = list(self.temp)
        t.temporary = self.temporary
        return t


def norm(kind, v):
    if kind == "s" and v == "":
        return None
    return v


def in_range(kind, v):
    if v is None or kind in ("s", "b"):
        return True
    return -32767 <= v <= 32767 if kind == "i2" else -(2 ** 31) + 1 <= v <= 2 ** 31 - 1


def create_sql(name, cols):
    return "CREATE TABLE `%s` (%s PRIMARY KEY %s)" % (
        name, ", ".join(c.sql() for c in cols), ", ".join("`%s`" % c.name for c in cols if c.key))


def reorder(cols):
    """CREATE TABLE swaps each key column into the first places, in PRIMARY KEY order."""
    out = list(cols)
    for n, k in enumerate([c for c in cols if c.key]):
        i = out.index(k)
        out[n], out[i] = out[i], out[n]
    return out


def lit(v):
    """A SQL literal, or None when the value can only be passed as a parameter."""
    if isinstance(v, int):
        return str(v) if v >= 0 else "-%d" % -v if v > -2 ** 31 else None
    if isinstance(v, str) and "'" not in v and "\0" not in v:
        return "'%s'" % v
    return None


class Sql:
    """Builds a statement with literals or '?' parameters."""
    def __init__(self):
        self.params = []

    def val(self, v, param):
        l = None if param else lit(v)
        if l is not None:
            return l
        self.params.append(v)
        return "?"


def enc_val(v):
    """JSON form of a value: bytes become ["b", hex]."""
    if isinstance(v, bytes):
        return ["b", v.hex()]
    return v


def dec_val(v):
    if isinstance(v, list):
        return bytes.fromhex(v[1])
    return v


def P2(v):
    return P(("stream", v)) if isinstance(v, bytes) else P(v)


# ---- conditions -----------------------------------------------------------
# ["cmp", op, colref, operand] operand = ["lit", v] | ["par", v] | ["col", colref]; ["null", colref]; ["notnull", colref]
# ["and", a, b]; ["or", a, b];  colref = [table or None, column]

def colsql(ref):
    return "`%s`.`%s`" % tuple(ref) if ref[0] else "`%s`" % ref[1]


def cond_sql(c, s, top=True):
    k = c[0]
    if k == "cmp":
        o = c[3]
        r = colsql(o[1]) if o[0] == "col" else s.val(dec_val(o[1]), o[0] == "par")
        return "%s %s %s" % (colsql(c[2]), c[1], r)
    if k == "null":
        return "%s IS NULL" % colsql(c[1])
    if k == "notnull":
        return "%s IS NOT NULL" % colsql(c[1])
    t = "%s %s %s" % (cond_sql(c[1], s, False), k.upper(), cond_sql(c[2], s, False))
    return t if top else "(%s)" % t


def cond_eval(c, get):
    """get(colref) -> (kind, value)"""
    k = c[0]
    if k == "and":
        return cond_eval(c[1], get) and cond_eval(c[2], get)
    if k == "or":
        return cond_eval(c[1], get) or cond_eval(c[2], get)
    if k == "null":
        return get(c[1])[1] is None
    if k == "notnull":
        return get(c[1])[1] is not None
    kind, a = get(c[2])
    o = c[3]
    b = get(o[1])[1] if o[0] == "col" else norm(kind, dec_val(o[1]))
    op = c[1]
    if kind == "s":
        return (a == b) if op == "=" else (a != b)
    inf = -10 ** 12
    a = inf if a is None else a
    b = inf if b is None else b
    return {"=": a == b, "<>": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]


def cond_size(c):
    return 1 + cond_size(c[1]) + cond_size(c[2]) if c and c[0] in ("and", "or") else 1 if c else 0


class DB:
    def __init__(self):
        self.t = {}
        self.streams = {}

    def copy(self):
        d = DB()
        d.t = {k: v.copy() for k, v in self.t.items()}
        d.streams = dict(self.streams)
        return d

    def committed(self):
        """What survives a commit and reopen: everything but temporary rows."""
        d = self.copy()
        d.t = {k: t for k, t in d.t.items() if not t.temporary}
        for t in d.t.values():
            keep = [i for i in range(len(t.rows)) if not t.temp[i]]
            t.rows = [t.rows[i] for i in keep]
            t.temp = [False] * len(keep)
        return d

    # each returns (sql, params, ok): the statement, and whether it must succeed; the model is updated
    def apply(self, op):
        return getattr(self, "op_" + op["op"])(op)

    def op_create(self, op):
        cols = [Col(*c) for c in op["cols"]]
        sql = create_sql(op["t"], cols)
        if op["t"] in self.t:
            return sql, [], False
        self.t[op["t"]] = Table(op["t"], reorder(cols))
        return sql, [], True

    def op_tcreate(self, op):
        """CREATE TABLE with only TEMPORARY columns: exists for this session only, and only with HOLD."""
        cols = [Col(*c) for c in op["cols"]]
        sql = "CREATE TABLE `%s` (%s PRIMARY KEY %s)%s" % (
            op["t"], ", ".join(c.sql() + " TEMPORARY" for c in cols), ", ".join("`%s`" % c.name for c in cols if c.key),
            " HOLD" if op["hold"] else "")
        if op["t"] in self.t:
            return sql, [], False
        if op["hold"]:
            t = self.t[op["t"]] = Table(op["t"], reorder(cols))
            t.temporary = True
            for c in t.cols:
                c.temporary = True
        return sql, [], True

    def op_drop(self, op):
        sql = "DROP TABLE `%s`" % op["t"]
        if op["t"] not in self.t:
            return sql, [], False
        del self.t[op["t"]]
        return sql, [], True

    def op_addcol(self, op):
        t = self.t[op["t"]]
        c = Col(*op["col"])
        sql = "ALTER TABLE `%s` ADD %s" % (op["t"], c.sql())
        if t.col(c.name) is not None:
            return sql, [], False
        t.cols.append(c)
        for r in t.rows:
            r.append(None)
        return sql, [], True

    def op_insert(self, op):
        t = self.t[op["t"]]
        vals = [dec_val(v) for v in op["vals"]]
        s = Sql()
        body = ", ".join(s.val(v, p) for v, p in zip(vals, op["par"]))
        sql = "INSERT INTO `%s` (%s) VALUES (%s)%s" % (
            t.name, ", ".join("`%s`" % c for c in op["cols"]), body, " TEMPORARY" if op.get("temp") else "")
        row = [None] * len(t.cols)
        ok = True
        for c, v in zip(op["cols"], vals):
            i = t.col(c)
            row[i] = norm(t.cols[i].kind, v)
            ok = ok and in_range(t.cols[i].kind, v)
        for i, c in enumerate(t.cols):
            if row[i] is None and not c.null and c.kind != "b":
                ok = False
        k = t.keyidx()
        if any([r[i] for i in k] == [row[i] for i in k] for r in t.rows):
            ok = False
        if ok:
            t.rows.append(row)
            t.temp.append(bool(op.get("temp")))
        return sql, s.params, ok

    def where_rows(self, t, cond):
        out = []
        for n, r in enumerate(t.rows):
            def get(ref):
                i = t.col(ref[1])
                return t.cols[i].kind, r[i]
            if cond is None or cond_eval(cond, get):
                out.append(n)
        return out

    def op_update(self, op):
        t = self.t[op["t"]]
        s = Sql()
        sets = [(c, dec_val(v)) for c, v, p in op["set"]]
        sql = "UPDATE `%s` SET %s" % (t.name, ", ".join("`%s` = %s" % (c, s.val(dec_val(v), p)) for c, v, p in op["set"]))
        if op.get("where"):
            sql += " WHERE " + cond_sql(op["where"], s)
        hit = self.where_rows(t, op.get("where"))
        ok = True
        for c, v in sets:
            i = t.col(c)
            if hit and (t.cols[i].key or not in_range(t.cols[i].kind, v)):
                ok = False
        if ok:
            for n in hit:
                for c, v in sets:
                    i = t.col(c)
                    t.rows[n][i] = norm(t.cols[i].kind, v)
        return sql, s.params, ok

    def op_delete(self, op):
        t = self.t[op["t"]]
        s = Sql()
        sql = "DELETE FROM `%s`" % t.name
        if op.get("where"):
            sql += " WHERE " + cond_sql(op["where"], s)
        hit = set(self.where_rows(t, op.get("where")))
        t.rows, t.temp = ([r for n, r in enumerate(t.rows) if n not in hit],
                          [x for n, x in enumerate(t.temp) if n not in hit])
        return sql, s.params, True

    def select(self, op):
        """op: {t: [tables], cols: [colref] or None, where, distinct, order: [colref]}
        -> sql, params, rows (unordered list of lists), order keys of the rows"""
        s = Sql()
        tabs = [self.t[n] for n in op["t"]]
        sql = "SELECT %s%s FROM %s" % ("DISTINCT " if op.get("distinct") else "",
                                       "*" if op.get("cols") is None else ", ".join(colsql(c) for c in op["cols"]),
                                       ", ".join("`%s`" % n for n in op["t"]))
        if op.get("where"):
            sql += " WHERE " + cond_sql(op["where"], s)
        if op.get("order"):
            sql += " ORDER BY " + ", ".join(colsql(c) for c in op["order"])
        combos = [[]]
        for t in tabs:
            combos = [c + [r] for c in combos for r in t.rows]

        def getter(combo):
            def get(ref):
                for t, r in zip(tabs, combo):
                    if ref[0] in (None, t.name):
                        i = t.col(ref[1])
                        if i is not None:
                            return t.cols[i].kind, r[i]
                raise KeyError(ref)
            return get
        rows, keys, seen = [], [], set()
        for combo in combos:
            get = getter(combo)
            if op.get("where") and not cond_eval(op["where"], get):
                continue
            if op.get("cols") is None:
                row = [v for r in combo for v in r]
            else:
                row = [get(c)[1] for c in op["cols"]]
            if op.get("distinct"):
                k = repr(row)
                if k in seen:
                    continue
                seen.add(k)
            rows.append(row)
            keys.append([get(c) for c in op.get("order") or []])
        return sql, s.params, rows, keys

    def columns(self, op):
        out = []
        tabs = [self.t[n] for n in op["t"]]
        if op.get("cols") is None:
            return [(c.name, c.typestr()) for t in tabs for c in t.cols]
        for ref in op["cols"]:
            for t in tabs:
                if ref[0] in (None, t.name) and t.col(ref[1]) is not None:
                    c = t.cols[t.col(ref[1])]
                    out.append((c.name, c.typestr()))
                    break
        return out


# ---- generators -----------------------------------------------------------

ASCII = "".join(chr(c) for c in range(32, 127))
LATIN = "éüßñÆ€Ÿ“£ÿ"
UNI = "日本語Ωжא\U0001f600"

IDCH = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
KEYWORDS = set("""ADD ALTER AND BY CHAR CHARACTER CREATE DELETE DISTINCT DROP FREE FROM HOLD INSERT INT INTEGER INTO IS KEY LIKE
LOCALIZABLE LONG LONGCHAR NOT NULL OBJECT OR ORDER PRIMARY SELECT SET SHORT TABLE TEMPORARY UPDATE VALUES WHERE""".split())


def idents(maxlen=14):
    tail = st.text(IDCH + "0123456789_.", max_size=maxlen - 1)
    return st.builds(lambda a, b: a + b, st.sampled_from(IDCH + "_"), tail).filter(
        lambda s: s not in ("_Tables", "_Columns", "_Streams", "_Storages", "_StringPool", "_StringData",
                            "_SummaryInformation", "_ForceCodepage", "_TransformView"))


TNAMES = ["T", "Property", "File", "Component_", "A.b", "x9", "FeatureComponents", "t", "Z_z", "MsiFileHash", "_Validation", "L" * 60]


def tname():
    return st.one_of(st.sampled_from(TNAMES), idents(18))


def text(kind="latin", maxlen=12):
    al = ASCII + {"ascii": "", "latin": LATIN, "uni": LATIN + UNI}[kind]
    pool = ["", "a", "b", "A", "ab", "a.b", "INSERT", "it's", "`q`", "\\", " ", "  x ", "%s%n", "0", "-1", "[P]", "a|b", "ÿ" if kind != "ascii" else "y"]
    return st.one_of(st.sampled_from(pool), st.text(al, max_size=maxlen))


I2 = st.one_of(st.sampled_from([0, 1, -1, 2, 32767, -32767, 255, 256, 1000]), st.integers(-32767, 32767))
I4 = st.one_of(st.sampled_from([0, 1, -1, 2, 32767, 32768, -32768, 65536, 2 ** 31 - 1, -2 ** 31 + 1]),
               st.integers(-2 ** 31 + 1, 2 ** 31 - 1))
SMALL = st.integers(-2, 4)
# around the sector and mini stream sizes of the file format
BLOB = st.builds(lambda n, b: bytes((b + i * 31) & 255 for i in range(n)), st.sampled_from([63, 64, 65, 511, 512, 513, 4095, 4096, 4097, 9000]), st.integers(0, 255))


def value(col, txt=None, small=False, nulls=True):
    base = {"s": txt if txt is not None else text(), "i2": st.one_of(SMALL, I2) if not small else SMALL,
            "i4": st.one_of(SMALL, I4) if not small else SMALL, "b": st.one_of(st.binary(min_size=1, max_size=40), BLOB)}[col.kind]
    if small and col.kind == "s":
        base = st.sampled_from(["a", "b", "c", "A", "ab"])
    if nulls and col.null and col.kind != "b":
        return st.one_of(st.none(), base, base, base)
    return base.map(lambda v: v if v != "" or col.null else "x") if col.kind == "s" else base


@st.composite
def columns(draw, maxcols=6, maxkeys=3, binary=False, names=None):
    n = draw(st.integers(1, maxcols))
    ns = draw(st.lists(names or st.one_of(st.sampled_from(list("abcdefgh") + ["Name", "Value", "a.b", "Data"]), idents()),
                       min_size=n, max_size=n, unique=True))
    nk = draw(st.integers(1, min(maxkeys, n)))
    cols = []
    for i, nm in enumerate(ns):
        key = i < nk
        kind = draw(st.sampled_from(("s", "s", "i2", "i4") if key or not binary else ("s", "s", "i2", "i4", "b", "b")))
        if kind == "b":
            binary = False      # all binary columns of a row share one stream: a table has at most one
        width = draw(st.sampled_from([0, 1, 38, 72, 255])) if kind == "s" else 0
        cols.append(Col(nm, kind, width, not key if draw(st.integers(0, 3)) else draw(st.booleans()),
                        draw(st.booleans()) if kind == "s" else False, key))
    return draw(st.permutations(cols))


def comparable(a, b):
    """Whether a comparison of two columns is specified: nulls of different integer widths are not."""
    if "b" in (a.kind, b.kind):
        return False
    return a.kind == b.kind or ("s" not in (a.kind, b.kind) and not a.null and not b.null)


@st.composite
def condition(draw, refs, depth=2, small=True):
    """refs: list of (colref, Col)"""
    k = draw(st.integers(0, 5))
    if depth and k < 2:
        return [["and", "or"][k], draw(condition(refs, depth - 1)), draw(condition(refs, depth - 1))]
    ref, col = draw(st.sampled_from(refs))
    if k == 5 or col.kind == "b":
        return [draw(st.sampled_from(["null", "notnull"])), ref]
    ops = ["=", "<>"] if col.kind == "s" else ["=", "<>", "<", ">", "<=", ">="]
    op = draw(st.sampled_from(ops))
    others = [(r, c) for r, c in refs if comparable(c, col) and r != ref]
    if others and draw(st.integers(0, 3)) == 0:
        return ["cmp", op, ref, ["col", draw(st.sampled_from(others))[0]]]
    v = draw(value(col, small=True, nulls=False) if small and draw(st.booleans()) else value(col, nulls=False))
    return ["cmp", op, ref, [draw(st.sampled_from(["lit", "par"])), v]]


def stream_name(t, row):
    return ".".join([t.name] + ["-32768" if row[i] is None and t.cols[i].kind == "i2" else "" if row[i] is None else str(row[i])
                                for i in t.keyidx()])


def has_binary(t):
    return any(c.kind == "b" for c in t.cols)


def multiset(rows):
    return sorted((repr(r) for r in rows))


def check_order(rows_keys):
    """rows_keys: the keys (list of (kind, value)) of the rows in result order.
    Integer keys ascend (nulls first); equal string keys stand together."""
    def ordered(seq, depth):
        if not seq or depth >= len(seq[0]):
            return True
        groups = []
        for k in seq:
            kind, v = k[depth]
            if groups and groups[-1][0] == v and type(groups[-1][0]) == type(v):
                groups[-1][1].append(k)
            else:
                groups.append([v, [k]])
        vals = [g[0] for g in groups]
        if len(set(map(repr, vals))) != len(vals):
            return False
        if seq[0][depth][0] in ("i2", "i4"):
            nums = [-10 ** 12 if v is None else v for v in vals]
            if nums != sorted(nums):
                return False
        return all(ordered(g[1], depth + 1) for g in groups)
    return ordered(rows_keys, 0)
