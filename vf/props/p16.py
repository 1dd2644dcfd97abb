"""Records and the streams read from them: a store of typed fields, checked against a model."""
import os
import re

from hypothesis import strategies as st

from ..core import Prop, Violation, case_dir
from ..driver import X
from .. import hist

NULL_INT = -2147483648
RECS, STRS = 4, 3
DB = {"CREATE": "2", "TRANSACT": "4"}

text = st.one_of(st.sampled_from(["", "0", "-0", "-", "--1", "+1", "1 ", " 1", "12x", "007", "2147483647", "-2147483647", "2147483648", "4294967296", "-2147483649", "99999999999999999999", "1.5", "١", "a", "é日"]),
                 st.integers(-2 ** 31 + 1, 2 ** 31 - 1).map(str), st.text(st.characters(blacklist_categories=["Cs"], blacklist_characters="\0"), max_size=300))
ints = st.one_of(st.sampled_from([0, 1, -1, 2147483647, -2147483647, 32767, 32768, -32768]), st.integers(-2 ** 31 + 1, 2 ** 31 - 1))
blob = st.one_of(st.binary(min_size=1, max_size=40), st.builds(lambda n, b: (bytes(range(256)) * (n // 256 + 1))[b:b + n], st.sampled_from([100, 4095, 4096, 4097, 9000, 70000]), st.integers(0, 250)))
ascii_ = st.text("abcXYZ 09_.", max_size=12)


@st.composite
def cases(draw):
    ops, sizes, opened, key, full = [], {}, set(), 0, {}
    for r in range(draw(st.integers(1, RECS))):
        sizes[r] = draw(st.sampled_from([0, 1, 2, 3, 3, 3, 3, 4, 8, 40]))
        ops.append(["new", r, sizes[r]])
    last = 0
    for _ in range(draw(st.integers(3, 40))):
        k = draw(st.sampled_from(["new", "set", "set", "set", "set", "setstr", "setstr", "clear", "look", "look", "open", "open", "open", "read", "read", "read", "seek", "seek", "skip", "tell", "close",
                                  "insert", "insert", "fetch", "drop", "commit", "reopen", "closedb"]))
        r = draw(st.sampled_from(sorted(sizes)))
        f = draw(st.one_of(st.integers(0, sizes[r] + 1), st.integers(1, max(1, sizes[r])), st.sampled_from([65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1])))
        s = draw(st.integers(0, STRS - 1))
        if k in ("read", "seek", "skip", "tell", "close"):
            if not opened:
                k = "open"
            else:
                s = draw(st.sampled_from(sorted(opened)))
        if k == "open" and not any(full.values()):
            k = "setstr"
        if k == "setstr" and draw(st.integers(0, 3)):
            rs = [x for x in sorted(sizes) if sizes[x]]
            if rs:
                r = draw(st.sampled_from(rs))
                f = draw(st.integers(1, sizes[r]))
        if k == "open" and draw(st.integers(0, 3)):
            r, f = draw(st.sampled_from([(x, y) for x in sorted(full) for y in sorted(full[x])]))
        if k == "insert":
            rs = [x for x in sorted(sizes) if sizes[x] == 3]
            if rs:
                r = draw(st.sampled_from(rs))
        if k == "new":
            if draw(st.booleans()):
                continue
            sizes[r] = draw(st.integers(0, 6))
            full.pop(r, None)
            ops.append([k, r, sizes[r]])
        elif k == "set":
            v = draw(st.one_of(ints, text, st.none()))
            ops.append([k, r, f, v])
            if r in full:
                full[r].discard(f)
        elif k == "setstr":
            if f == 0 or f > sizes[r]:
                how = "f"
            else:
                how = draw(st.sampled_from(["m", "m", "f", "f", "u", "x", "e"]))
            ops.append([k, r, f, how, draw(blob).hex()])
            if 0 < f <= sizes[r] and how not in "ux":
                full.setdefault(r, set()).add(f)
        elif k in ("clear", "look"):
            ops.append([k, r])
            if k == "clear":
                full.pop(r, None)
        elif k == "open":
            ops.append([k, s, r, f])
            if f in full.get(r, ()):
                opened.add(s)
        elif k == "read":
            ops.append([k, s, draw(st.sampled_from([1, 2, 7, 100, 4096, 100000]))])
        elif k == "seek":
            ops.append([k, s, draw(st.one_of(st.integers(-10, 100), st.sampled_from([4096, 5000, -5000, 2 ** 40, -2 ** 40]))), draw(st.sampled_from("sce"))])
        elif k == "skip":
            ops.append([k, s, draw(st.sampled_from([1, 3, 50, 5000, 100000]))])
        elif k in ("tell", "close"):
            ops.append([k, s])
            if k == "close":
                opened.discard(s)
        elif k == "insert":
            key += 1
            ops.append([k, r, key, draw(st.one_of(ascii_, ints)), draw(blob).hex() if draw(st.integers(0, 4)) else None, draw(st.booleans())])
            if sizes[r] == 3:
                full[r] = {3} if ops[-1][4] else set()
        elif k in ("fetch", "drop"):
            if key:
                ops.append([k, r, draw(st.integers(1, key))])
                if k == "fetch":
                    sizes[r] = 3
                    full[r] = {3}
        else:
            ops.append([k])
    return {"ops": ops}


def as_int(v):
    if isinstance(v, int):
        return v
    if isinstance(v, str) and re.fullmatch("-?[0-9]+", v, re.A):
        return (int(v) + 2 ** 31) % 2 ** 32 - 2 ** 31     # as an existing test wants it
    return NULL_INT


class P16(Prop):
    id = "P16"
    needs = ("lib",)
    quick = 700
    thorough = 12000
    rule = ("the history sets a field, and reads a stream in parts or after moving in it, or reads a record that comes from a database after the row, the query or the database has gone")

    def strategy(self):
        return cases()

    def run(self, case, env):
        d = case_dir(env)
        labels = set()
        sc = hist.Script()
        db = os.path.join(d, "a.msi")
        recs, strs, rows = {}, {}, {}
        gone = set()          # records whose origin is gone
        nfile = [0]
        nontriv = [False]

        def want(what, v):
            def f(r):
                got = r.get("v")
                if got != v:
                    return "%s: expected %s, got %s" % (what, short(v), short(got))
            return f

        def wanterr(what, v, bad):
            def f(r):
                got = r.get("v")
                if got != v:
                    return "%s: expected %s, got %s" % (what, short(v), short(got))
                if bad and r.get("err") is None:
                    return "%s fails without an error" % what
                if not bad and r.get("err") is not None:
                    return "%s succeeds with an error" % what
            return f

        def look(r):
            if r not in recs:
                return
            fs = recs[r]
            n = len(fs) - 1
            sc.add(["r_count", str(r)], want("field count", n))
            for i in list(range(0, n + 1))[:12] + [n + 1, 65536, 2 ** 32 - 1]:
                v = fs[i] if i <= n else None
                t = "field %d (%s)" % (i, short(v))
                sc.add(["r_null", str(r), str(i)], want(t + " is null", 1 if v is None else 0))
                sc.add(["r_int", str(r), str(i)], want(t + " as integer", as_int(v)))
                sc.add(["r_str", str(r), str(i)], want(t + " as string", None if isinstance(v, bytes) else str(v) if v is not None else ""))
                sc.add(["r_stream", str(r), str(i)], want(t + " as stream", v if isinstance(v, bytes) else None))
            if r in gone:
                labels.add("read after its origin is gone")
                nontriv[0] = True

        def file(b):
            fn = os.path.join(d, "f%d" % nfile[0])
            nfile[0] += 1
            with open(fn, "wb") as f:
                f.write(b)
            return "f" + os.fsencode(fn).hex()

        opened = [False]

        def opendb():
            if not opened[0]:
                if os.path.exists(db) or opened[0] is None:
                    sc.add(["open", "0", X(db), DB["TRANSACT"], "N"], hist.expect_ok)
                else:
                    sc.add(["open", "0", X(db), DB["CREATE"], "N"], hist.expect_ok)
                    sc.query(0, "CREATE TABLE `T` (`k` LONG NOT NULL, `s` CHAR(0), `b` OBJECT PRIMARY KEY `k`)", [], hist.expect_ok)
                    sc.add(["commit", "0"], hist.expect_ok)
                opened[0] = True

        committed = {}
        for op in case["ops"]:
            k = op[0]
            if k in ("read", "seek", "skip", "tell", "close"):
                if op[1] not in strs:
                    continue
                s = strs[op[1]]
            labels.add(k)
            if k == "new":
                recs[op[1]] = [None] * (op[2] + 1)
                gone.discard(op[1])
                sc.add(["r_new", str(op[1]), str(op[2])], hist.expect_ok)
            elif k == "set":
                r, f, v = op[1:]
                if r not in recs:
                    continue
                good = f < len(recs[r])
                p = "N" if v is None else "i%d" % v if isinstance(v, int) else "s" + v.encode().hex()
                sc.add(["r_set", str(r), str(f), p], want("setting field %d" % f, 1 if good else 0))
                if good:
                    recs[r][f] = v if v != "" else None
            elif k == "setstr":
                r, f, how, b = op[1:]
                if r not in recs:
                    continue
                b = bytes.fromhex(b)
                inside = 0 < f < len(recs[r])
                if how in "mu" and not inside:
                    continue
                if how in "mu":
                    p = how + b.hex()
                elif how == "x":
                    p = "f" + os.fsencode(os.path.join(d, "nope")).hex()
                elif how == "e":
                    b = b""
                    p = file(b)
                else:
                    p = file(b)
                good = inside and how not in "ux"
                sc.add(["r_set", str(r), str(f), p], want("setting the stream of field %d (%s)" % (f, how), 1 if good else 0))
                if good:
                    recs[r][f] = b
            elif k == "clear":
                if op[1] in recs:
                    sc.add(["r_clear", str(op[1])], want("clear", 1))
                    recs[op[1]] = [None] * len(recs[op[1]])
            elif k == "look":
                look(op[1])
            elif k == "open":
                s, r, f = op[1:]
                if r not in recs:
                    continue
                v = recs[r][f] if f < len(recs[r]) else None
                isb = isinstance(v, bytes)
                sc.add(["s_open", str(s), str(r), str(f)], want("the stream of field %d (%s)" % (f, short(v)), isb))
                strs.pop(s, None)
                if isb:
                    strs[s] = [v, 0]
            elif k == "read":
                got = s[0][s[1]:s[1] + op[2]]
                sc.add(["s_read", str(op[1]), str(op[2])], wanterr("reading %d bytes of %d at %d" % (op[2], len(s[0]), s[1]), got, False))
                if s[1]:
                    nontriv[0] = True
                s[1] += len(got)
            elif k == "skip":
                n = min(op[2], len(s[0]) - s[1])
                sc.add(["s_skip", str(op[1]), str(op[2])], wanterr("skipping %d bytes of %d at %d" % (op[2], len(s[0]), s[1]), n, False))
                s[1] += n
            elif k == "seek":
                to = op[2] + {"s": 0, "c": s[1], "e": len(s[0])}[op[3]]
                good = 0 <= to <= len(s[0])
                sc.add(["s_seek", str(op[1]), str(op[2]), op[3]], wanterr("seeking by %d from %s in %d bytes at %d" % (op[2], op[3], len(s[0]), s[1]), good, not good))
                if good:
                    s[1] = to
            elif k == "tell":
                sc.add(["s_tell", str(op[1])], want("the position", s[1]))
            elif k == "close":
                sc.add(["s_close", str(op[1])], wanterr("closing", True, False))
                del strs[op[1]]
            elif k == "insert":
                r, key, sv, b, commit = op[1:]
                if len(recs.get(r, ())) != 4:
                    continue
                opendb()
                if isinstance(sv, int):
                    sv = str(sv)
                b = bytes.fromhex(b) if b is not None else None
                sc.add(["r_set", str(r), "1", "i%d" % key], want("set", 1))
                sc.add(["r_set", str(r), "2", "s" + sv.encode().hex()], want("set", 1))
                if b is None:
                    sc.add(["r_set", str(r), "3", "N"], want("set", 1))
                else:
                    sc.add(["r_set", str(r), "3", "m" + b.hex()], want("set", 1))
                recs[r][1:] = [key, sv or None, b]
                gone.discard(r)
                if key in rows:
                    continue
                sc.add(["qnew", "1", "0", X("INSERT INTO `T` (`k`, `s`, `b`) VALUES (?, ?, ?)")], hist.expect_ok)
                sc.add(["qexecrec", "1", str(r)], hist.expect_ok)
                sc.add(["qclose", "1"], None)
                sc.add(["qfree", "1"], None)
                rows[key] = list(recs[r])
                if commit:
                    sc.add(["commit", "0"], hist.expect_ok)
                    committed = dict(rows)
                look(r)
            elif k == "fetch":
                r, key = op[1:]
                opendb()
                sc.add(["qnew", "2", "0", X("SELECT `k`, `s`, `b` FROM `T` WHERE `k` = %d" % key)], hist.expect_ok)
                sc.add(["qexec", "2"], hist.expect_ok)
                sc.add(["qfetchrec", "2", str(r)], wanterr("fetching row %d" % key, key in rows, False))
                recs.pop(r, None)
                gone.discard(r)
                if key in rows:
                    recs[r] = [None] + rows[key][1:]
                    look(r)
                sc.add(["qclose", "2"], None)
                sc.add(["qfree", "2"], None)
                gone.add(r)
            elif k == "drop":
                opendb()
                sc.query(0, "DELETE FROM `T` WHERE `k` = %d" % op[2], [], hist.expect_ok)
                rows.pop(op[2], None)
            elif k == "commit":
                if opened[0]:
                    sc.add(["commit", "0"], hist.expect_ok)
                    committed = dict(rows)
            elif k in ("reopen", "closedb"):
                if opened[0]:
                    sc.add(["close", "0"], None)
                    opened[0] = None
                    rows = dict(committed)
        for r in sorted(recs):
            look(r)
        sc.run(env.drv)
        return nontriv[0], labels


def short(v):
    s = repr(v)
    return s if len(s) < 80 else s[:60] + "... (%d)" % len(v)


PROP = P16
