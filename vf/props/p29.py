"""No statement and no table file makes the library misbehave: it is refused or it is carried out."""
import random

from hypothesis import strategies as st

from ..core import Prop
from .. import fuzz
from .p17 import P17

TABS = ["`A`", "`B`", "`C`", "A", "`_Tables`", "`_Columns`", "`_Streams`", "`_Storages`", "`Nope`", "`Tn`", "`A`.`S`", "`A` , `B`", "`B`, `A`, `C`"]
COLS = ["`Id`", "`S`", "`L`", "`K`", "`D`", "`N`", "`K1`", "`K2`", "`V`", "`A`.`Id`", "`C`.`K2`", "Id", "`Nope`", "`Name`", "`Table`", "`Data`", "*", "`A`.`Nope`", "`X`.`Id`", "''"]
VALS = ["1", "-1", "0", "32767", "-32768", "65536", "2147483647", "99999999999999999999", "'s1'", "'k1'", "''", "?", "?", "'it'", "NULL", "`S`", "'é'", "'" + "x" * 300 + "'"]
OPS = ["=", "<>", "<", ">", "<=", ">=", "IS NULL", "IS NOT NULL", "LIKE"]
TYPES = ["SHORT", "LONG", "INT", "INTEGER", "CHAR", "CHAR(0)", "CHAR(3)", "CHAR(255)", "CHAR(65536)", "CHAR(-1)", "CHARACTER(7)", "LONGCHAR", "OBJECT", "SHORT NOT NULL", "CHAR(9) NOT NULL LOCALIZABLE", "CHAR(2) TEMPORARY", "LONG TEMPORARY HOLD"]
NEWC = ["`a`", "`b`", "`c`", "`Id`", "`" + "n" * 40 + "`", "``", "`a b`"]
JUNK = ["(", ")", ",", "'", "`", "\"", ";", "--", "/*", "\t", "\n", " ", ".", "..", "=", "?", "[", "]", "%", "@", "é", "0x1", "AND", "OR", "NOT", "WHERE", "SELECT", "FROM", "ORDER BY", "DISTINCT", "PRIMARY KEY", "HOLD", "FREE", "TEMPORARY", "VALUES", "SET",
        "TABLE", "\x01", "LIKE", "IS", "NULL", "{", "}"]
t, c, v, o = st.sampled_from(TABS), st.sampled_from(COLS), st.sampled_from(VALS), st.sampled_from(OPS)
some = lambda s, lo, hi: st.lists(s, min_size=lo, max_size=hi)


@st.composite
def cond(draw, d=2):
    if d and draw(st.integers(0, 2)) == 0:
        a, b = draw(cond(d - 1)), draw(cond(d - 1))
        return ["("] + a + [draw(st.sampled_from(["AND", "OR"]))] + b + [")"]
    op = draw(o)
    l = draw(c if draw(st.integers(0, 9)) else v)
    return [l, op] + ([] if op.startswith("IS") else [draw(st.one_of(v, v, c))])


def commas(xs):
    out = []
    for x in xs:
        out += ([","] if out else []) + (x if isinstance(x, list) else [x])
    return out


@st.composite
def tokens(draw):
    k = draw(st.integers(0, 9))
    w = ["WHERE"] + draw(cond()) if draw(st.integers(0, 2)) else []
    if k < 4:
        return ["SELECT"] + (["DISTINCT"] if draw(st.integers(0, 4)) == 0 else []) + commas(draw(some(c, 1, 4))) + ["FROM", draw(t)] + w + (["ORDER BY"] + commas(draw(some(c, 1, 3))) if draw(st.integers(0, 2)) == 0 else [])
    if k == 4:
        n = draw(st.integers(0, 4))
        return ["INSERT INTO", draw(t), "("] + commas(draw(some(c, n, n))) + [")", "VALUES", "("] + commas(draw(some(v, n, n + draw(st.sampled_from([0, 0, 0, 1]))))) + [")"] + (["TEMPORARY"] if draw(st.booleans()) else [])
    if k == 5:
        return ["UPDATE", draw(t), "SET"] + commas([[draw(c), "=", draw(v)] for _ in range(draw(st.integers(1, 3)))]) + w
    if k == 6:
        return ["DELETE FROM", draw(t)] + w
    if k == 7:
        cols = draw(some(st.sampled_from(NEWC), 1, 4))
        return ["CREATE TABLE", draw(st.sampled_from(["`Tn`", "`Tm`", "`A`", "`_Tables`", "`_Streams`", "`" + "t" * 70 + "`"])), "("] + commas([[x, draw(st.sampled_from(TYPES))] for x in cols]) + ["PRIMARY KEY"] + commas(draw(some(st.sampled_from(cols + NEWC[:2]), 1, 3))) + [")"] + (["HOLD"] if draw(st.integers(0, 4)) == 0 else [])
    if k == 8:
        x = draw(st.integers(0, 3))
        return ["ALTER TABLE", draw(t)] + (["HOLD"] if x == 0 else ["FREE"] if x == 1 else ["ADD", draw(st.sampled_from(NEWC)), draw(st.sampled_from(TYPES))] + (["HOLD"] if x == 2 else []))
    return ["DROP TABLE", draw(t)]


@st.composite
def statements(draw):
    ts = draw(tokens())
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2, 4]))):
        i = draw(st.integers(0, len(ts)))
        k = draw(st.integers(0, 5))
        if k == 0:
            ts = ts[:i] + ts[i + 1:]
        elif k == 1:
            ts = ts[:i] + ts[i - 1:i] * draw(st.sampled_from([1, 2, 40, 300])) + ts[i:]
        elif k == 2:
            ts = ts[:i]
        elif k == 3 and i < len(ts):
            ts = ts[:i] + [draw(st.one_of(v, c, t, st.sampled_from(JUNK)))] + ts[i + 1:]
        elif k == 4:
            ts = ts[:i] + [draw(st.sampled_from(JUNK))] + ts[i:]
        elif i < len(ts):
            j = draw(st.integers(0, len(ts) - 1))
            ts = list(ts)
            ts[i], ts[j] = ts[j], ts[i]
    return [draw(st.integers(0, 15)), " ".join(ts)]


cell = st.one_of(st.sampled_from(["", "a", "k1", "1", "-5", "x y", "70000", "2147483648", "é", "_SummaryInformation", "_ForceCodepage", "A", "B", "Tn", "file", "../x", "\x11", "\x19\x10", "65001", "1252", "99", "z" * 300, "`", "s0) , `x", "'", "2024/13/45 99:99:99"]), st.text("ab\x00\x10\x11\x19\x7f\xff,`'", max_size=4))
tycell = st.one_of(st.sampled_from(["i2", "I2", "i4", "I4", "s72", "S255", "l0", "L50", "s0", "v0", "V0", "I3", "i1", "x9", "", "s", "i", "s999999", "S-1", "g7", "j2"]), cell)


@st.composite
def tables(draw):
    k = draw(st.integers(0, 6))
    if k == 0:
        heads, types, labels = ["Id", "S", "L"], ["i2", "S40", "I4"], ["A", "Id"]
    elif k == 1:
        heads, types, labels = ["K", "D", "N"], ["s20", "V0", "I2"], ["B", "K"]
    elif k == 2:
        heads, types, labels = ["PropertyId", "Value"], ["i2", "l255"], ["_SummaryInformation", "PropertyId"]
    elif k == 3:
        heads, types, labels = [""], [draw(st.sampled_from(["0", "1252", "65001", "932", "1", "-1", "x"])), "_ForceCodepage"], [""]
    else:
        n = draw(st.integers(1, 4))
        heads = draw(some(st.one_of(st.sampled_from(["a", "b", "c", "d"]), cell), n, n))
        types = draw(some(tycell, n, n))
        labels = [draw(st.sampled_from(["Tn", "Tm", "A", "_Tables", "_Streams", "", "t" * 60]))] + heads[:draw(st.integers(0, n))]
    lines = [heads, types, labels]
    if k == 2:
        lines += [[draw(st.sampled_from(["0", "1", "2", "3", "9", "12", "14", "19", "20", "-1", "99999999", "x"])), draw(st.one_of(cell, st.sampled_from(["2020/01/02 03:04:05", "1999/12/31", "5", "-7", "2020/01/02 03:04:05 pm"])))] for _ in range(draw(st.integers(0, 4)))]
    elif k != 3 or draw(st.integers(0, 4)) == 0:
        lines += [draw(some(st.one_of(cell, st.integers(-40000, 40000).map(str)), len(heads), len(heads))) for _ in range(draw(st.integers(0, 4)))]
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        i = draw(st.integers(0, len(lines) - 1))
        x = draw(st.integers(0, 4))
        if x == 0:
            lines[i] = lines[i][:-1]
        elif x == 1:
            lines[i] = lines[i] + [draw(cell)]
        elif x == 2:
            lines.insert(i, lines[i])
        elif x == 3 and len(lines) > 1:
            lines.pop(i)
        elif lines[i]:
            lines[i] = [draw(tycell)] + lines[i][1:]
    nl = draw(st.sampled_from(["\r\n", "\r\n", "\n", "\r", "\r\n\n"]))
    s = nl.join("\t".join(l) for l in lines) + draw(st.sampled_from([nl, nl, "", "\0", "\t"]))
    b = s.encode("utf-8" if draw(st.booleans()) else "latin-1", "replace")
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 3]))):
        i = draw(st.integers(0, len(b)))
        b = b[:i] + draw(st.binary(max_size=2)) + b[i + draw(st.integers(0, 2)):]
    return ["I", b.hex()]


@st.composite
def cases(draw):
    item = st.one_of(statements(), statements(), statements(), tables(), st.just(["C", ""]), st.just(["L", ""]), st.just(["R", ""]))
    return {"items": draw(st.lists(item, min_size=1, max_size=10))}


def blob(items):
    out = []
    for k, x in items:
        d = bytes.fromhex(x) if k == "I" else x.encode("utf-8", "surrogatepass")
        out.append((k.encode() if isinstance(k, str) else bytes([0x30 + k])) + d.replace(b"\x1e", b" "))
    return b"\x1e".join(out)


class P29(P17):
    id = "P29"
    needs = ("fuzz_sql", "persist_sql")
    quick = 900
    thorough = 60000
    campaign = {"quick": (6, 4000), "thorough": (420, None)}
    corpus = "p29"
    binary, persist = "fuzz_sql", "persist_sql"
    rule = ("a case is a sequence of up to ten statements (grammatical ones, and ones with tokens left out, repeated, exchanged or replaced), table files (well-formed and damaged) and commits on a database of three tables; each "
            "statement is prepared, described, executed once or twice with or without arguments and fetched, or left open while others are executed and resumed later, under AddressSanitizer, and the database is read completely before and after the commit; further inputs come from "
            "coverage-guided search (libFuzzer) from such inputs with a dictionary of the language; non-trivial: contains a statement or a table file")
    strategy = staticmethod(cases)

    def input(self, case):
        return bytes.fromhex(case["input"]) if "input" in case else blob(case["items"])

    def run(self, case, env):
        env.drv.run(self.input(case))
        if "input" in case:
            return True, ["regression"]
        return any(k not in ("C", "L", "R") for k, x in case["items"]), sorted({k if isinstance(k, str) else "statement" for k, x in case["items"]})

    def shrink(self, case):
        if "input" in case:
            yield from super().shrink(case)
            return
        it = case["items"]
        for i in range(len(it)):
            yield {"items": it[:i] + it[i + 1:]}
        for i, (k, x) in enumerate(it):
            ts = x.split(" ") if k != "I" else None
            if ts:
                for j in range(len(ts)):
                    yield {"items": it[:i] + [[k, " ".join(ts[:j] + ts[j + 1:])]] + it[i + 1:]}
                if k not in (0, "C", "L", "R"):
                    yield {"items": it[:i] + [[0, x]] + it[i + 1:]}
            elif k == "I":
                n = len(x) // 4 * 2
                while n:
                    for j in range(0, len(x), n):
                        yield {"items": it[:i] + [[k, x[:j] + x[j + n:]]] + it[i + 1:]}
                    n = n // 4 * 2

    def seeds(self, n):
        r = random.Random(5)
        ch = r.choice
        out = [self.input(c) for c in self.fixed_cases()]
        for i in range(n):
            items = []
            for _ in range(r.randint(1, 4)):
                items.append([r.randint(0, 15), ch(["SELECT %s FROM %s WHERE %s = %s ORDER BY %s" % (ch(COLS), ch(TABS), ch(COLS), ch(VALS), ch(COLS)), "SELECT DISTINCT %s, %s FROM %s" % (ch(COLS), ch(COLS), ch(TABS)),
                              "INSERT INTO %s (%s, %s) VALUES (%s, %s)" % (ch(TABS), ch(COLS), ch(COLS), ch(VALS), ch(VALS)), "UPDATE %s SET %s = %s WHERE %s %s" % (ch(TABS), ch(COLS), ch(VALS), ch(COLS), ch(["IS NULL", "<> 2", "= ?"])),
                              "DELETE FROM %s WHERE (%s = %s OR %s > %s) AND %s <> %s" % (ch(TABS), ch(COLS), ch(VALS), ch(COLS), ch(VALS), ch(COLS), ch(VALS)), "CREATE TABLE `Tn` (`a` %s, `b` %s PRIMARY KEY `a`)" % (ch(TYPES), ch(TYPES)),
                              "ALTER TABLE %s ADD `z` %s" % (ch(TABS), ch(TYPES)), "ALTER TABLE %s %s" % (ch(TABS), ch(["HOLD", "FREE"])), "DROP TABLE %s" % ch(TABS)])])
            if i % 3 == 0:
                items.append(["I", ch(["a\tb\r\ni2\tS40\r\nTn\ta\r\n1\tx\r\n", "Id\tS\tL\r\ni2\tS40\tI4\r\nA\tId\r\n7\tq\t9\r\n", "PropertyId\tValue\r\ni2\tl255\r\n_SummaryInformation\tPropertyId\r\n2\tt\r\n12\t2020/01/02 03:04:05\r\n", "\r\n\r\n65001\t_ForceCodepage\r\n"]).encode().hex()])
            out.append(blob(items))
        return out


PROP = P29
