"""Streams and binary columns against a dictionary."""
import os, subprocess

from hypothesis import strategies as st

from ..core import Prop, Violation, case_dir
from ..driver import X
from .. import cfb, hist, model as M, msifmt, tools

NAMEPOOL = ["a", "ab", "abc", "T", "T.a", "Binary.x", "_Tables", "Property", "A", "AB", "é", "日本", "a b", "-x", "x.y.z", "0", "disk1.cab", "#cab", "a" * 62, "b" * 61]


def names():
    return st.one_of(st.sampled_from(NAMEPOOL), st.text(M.ASCII.replace("/", "").replace("\\", "").replace(":", "").replace("!", "") + "éß日Ω", min_size=1, max_size=20),
                     M.idents(40)).filter(lambda n: 0 < len(msifmt.encode_name(n)) <= 31 and n.strip() == n)


def blob():
    return st.one_of(st.binary(min_size=1, max_size=30), M.BLOB, st.sampled_from([b"\0", b"\0" * 64, b"\n", b"\r\n\x1a"]))


@st.composite
def storage(draw, depth=0):
    d = {"clsid": draw(st.sampled_from([b"\0" * 16, msifmt.CLSID_MST, b"0123456789abcdef"])).hex()}
    for n in draw(st.lists(st.sampled_from(["s1", "ｘ", "Sub", "\x05SummaryInformation", "\u3801\u3fff", "n4"]), max_size=3, unique=True)):
        d[n] = {"s": draw(storage(depth + 1))} if depth < 2 and draw(st.integers(0, 3)) == 0 else {"b": draw(st.one_of(st.just(b""), st.binary(min_size=1, max_size=9), blob())).hex()}
    return d


@st.composite
def cases(draw):
    stor = {n: draw(storage()) for n in draw(st.lists(st.sampled_from(["Transform1", "MyStorage", "x.y"]), max_size=2, unique=True))} if draw(st.integers(0, 2)) == 0 else {}
    first = {n: draw(blob()).hex() for n in draw(st.lists(names(), max_size=4, unique=True))} if draw(st.booleans()) else {}
    ops = []
    have = list(first)
    keys = []
    for _ in range(draw(st.integers(2, 18))):
        k = draw(st.sampled_from(["add", "add", "add", "replace", "del", "get", "list", "row", "row", "rowupd", "rowdel", "commit", "reopen", "rollback",
                                  "stlist", "badadd", "held", "stadd", "stdel", "stbad", "long"]))
        if k == "add":
            n = draw(names())
            ops.append([k, n, draw(blob()).hex(), draw(st.sampled_from(["mem", "file", "lit"]))])
            have.append(n)
        elif k == "badadd":
            ops.append([k, draw(names())])
        elif k == "long":
            what = draw(st.sampled_from(["stream", "row", "table", "storage"]))
            n = draw(st.one_of(st.builds(lambda c, n: c * n, st.sampled_from("ab"), st.integers(63, 150)), st.builds(lambda c, n: c * n, st.sampled_from(["é", "-", "日", "a-"]), st.integers(32, 70)),
                               st.just("c" * (59 if what == "row" else 61 if what == "table" else 64)), st.just("\U0001f600" * 16)))
            if what in ("row", "table"):
                n = n.replace("日", "ü").replace("\U0001f600", "ß-")  # text of the database has to fit its code page
            if what == "storage" or what == "table" or not 0 < len(msifmt.encode_name("Bin." + n if what == "row" else n)) <= 31:
                if what != "table" or len(msifmt.encode_name(n)) > 30 and "-" not in n:
                    ops.append([k, what, n])
        elif k in ("replace", "del", "get"):
            if not have:
                continue
            n = draw(st.sampled_from(have))
            ops.append([k, n] + ([draw(blob()).hex()] if k == "replace" else []))
        elif k == "stadd":
            n = draw(st.sampled_from(["Sto1", "Sto2", "Sto3", "Transform1"]))
            ops.append([k, n, draw(storage())])
        elif k == "stdel":
            ops.append([k, draw(st.sampled_from(["Sto1", "Sto2", "Transform1"]))])
        elif k == "row":
            key = draw(st.sampled_from(["k%d" % i for i in range(6)]))
            ops.append([k, key, draw(blob()).hex(), draw(st.sampled_from(["mem", "file"]))])
            keys.append(key)
        elif k == "rowupd":
            ops.append([k, draw(st.sampled_from(keys or ["zz"])), draw(blob()).hex()])
        elif k == "rowdel":
            ops.append([k, draw(st.sampled_from(keys or ["zz"]))])
        else:
            ops.append([k])
    return {"stor": stor, "first": first, "ops": ops, "tool": draw(st.integers(0, 3)) == 0}


def tree(d):
    r = {n: tree(v["s"]) if "s" in v else bytes.fromhex(v["b"]) for n, v in d.items() if n != "clsid"}
    r[None] = bytes.fromhex(d["clsid"])
    return r


def untree(e):
    r = {n: untree(c) if c.type == 1 else c.data for n, c in e.children.items()}
    r[None] = e.clsid
    return r


class P07(Prop):
    id = "P07"
    quick = 400
    thorough = 4000
    rule = ("a case is a history of adding, replacing, deleting and reading streams through _Streams, of rows with binary columns, commits and reopens, "
            "on a file that may start with streams and storages; non-trivial: the committed file has at least two streams")
    strategy = staticmethod(cases)

    def run(self, case, env):
        d = case_dir(env)
        path = os.path.join(d, "s.msi")
        t = M.Table("Bin", [M.Col("k", "s", 20, key=True, null=False), M.Col("v", "b", null=True), M.Col("n", "i2", null=True)])
        other = M.Table("Property", [M.Col("Property", "s", 72, key=True, null=False), M.Col("Value", "s", null=True)])
        other.rows = [["p", "q"]]
        stor = {n: tree(v) for n, v in case["stor"].items()}
        w = msifmt.Writer()
        streams = {n: bytes.fromhex(b) for n, b in case["first"].items()}
        with open(path, "wb") as f:
            f.write(w.build([t, other], streams=streams, extra=stor))
        rows = {}
        dead = set()        # streams of deleted rows: present or not
        saved = (dict(streams), dict(rows), set(dead), dict(stor))
        sc = hist.Script()
        labels = set()
        sc.add(["open", "0", X(path), "4", "N"], hist.expect_ok)

        def listing(r):
            if r.get("st") != "ok":
                return "SELECT from _Streams failed"
            got = {}
            for n, b in r["rows"]:
                if n in got:
                    return "stream %r listed twice" % n
                got[n] = b
            want = dict(now[0])
            want.update({"Bin." + k: v for k, v in now[1].items()})
            for n in now[2]:
                if n not in want:
                    got.pop(n, None)
            if got != want:
                return "streams are %s, expected %s" % (hist.short(got), hist.short(want))

        def check():
            snap = (dict(streams), dict(rows), set(dead))

            def f(r):
                now[:] = snap
                return listing(r)
            sc.query(0, "SELECT `Name`, `Data` FROM `_Streams`", [], f)
            want = {k: v for k, v in rows.items()}

            def g(r):
                if r.get("st") != "ok" or {k: v for k, v in r["rows"]} != want or len(r["rows"]) != len(want):
                    return "binary rows %s, expected %s" % (hist.short(r.get("rows")), hist.short(want))
            sc.query(0, "SELECT `k`, `v` FROM `Bin`", [], g)
            sc.query(0, "SELECT * FROM `Property`", [], hist.expect_rows(other.rows))
        now = [{}, {}, set()]
        nfile = 0

        def param(b, how):
            nonlocal nfile
            if how == "file":
                fn = os.path.join(d, "in%d" % nfile)
                nfile += 1
                with open(fn, "wb") as f:
                    f.write(b)
                return "f" + os.fsencode(fn).hex()
            return "m" + b.hex()
        check()
        for op in case["ops"]:
            k = op[0]
            labels.add(k)
            if k == "add":
                n, b = op[1], bytes.fromhex(op[2])
                if n in streams or n in dead or n.startswith("Bin."):
                    continue
                lit = op[3] == "lit" and "'" not in n
                sql = "INSERT INTO `_Streams` (`Name`, `Data`) VALUES (%s, ?)" % ("'%s'" % n if lit else "?")
                sc.add(["q", "0", X(sql)] + ([] if lit else ["s" + n.encode().hex()]) + [param(b, op[3])], hist.expect_ok)
                streams[n] = b
            elif k == "badadd":
                sc.add(["q", "0", X("INSERT INTO `_Streams` (`Name`, `Data`) VALUES (?, ?)"), "s" + op[1].encode().hex(), "f" + b"/nonexistent/x".hex()], hist.expect_fail)
            elif k == "long":
                what, n = op[1], op[2]
                pn = "s" + n.encode().hex()
                if what == "stream":
                    sc.add(["q", "0", X("INSERT INTO `_Streams` (`Name`, `Data`) VALUES (?, ?)"), pn, param(b"abc", "mem")], hist.expect_fail)
                elif what == "row":
                    sc.add(["q", "0", X("INSERT INTO `Bin` (`k`, `v`, `n`) VALUES (?, ?, 3)"), pn, param(b"abc", "mem")], hist.expect_fail)
                elif what == "table":
                    sc.query(0, "CREATE TABLE `%s` (`a` SHORT NOT NULL PRIMARY KEY `a`)" % n, [], hist.expect_fail)
                elif len(n.encode("utf-16-le")) > 62:
                    fn = os.path.join(d, "st%d" % nfile)
                    nfile += 1
                    with open(fn, "wb") as f:
                        f.write(cfb.write({}, msifmt.CLSID_MST))
                    sc.add(["q", "0", X("INSERT INTO `_Storages` (`Name`, `Data`) VALUES (?, ?)"), pn, "f" + os.fsencode(fn).hex()], hist.expect_fail)
                check()
            elif k == "replace":
                n, b = op[1], bytes.fromhex(op[2])
                if n not in streams:
                    continue
                sc.add(["q", "0", X("UPDATE `_Streams` SET `Data` = ? WHERE `Name` = ?"), "m" + b.hex(), "s" + n.encode().hex()], hist.expect_ok)
                streams[n] = b
            elif k == "del":
                sc.add(["q", "0", X("DELETE FROM `_Streams` WHERE `Name` = ?"), "s" + op[1].encode().hex()], hist.expect_ok)
                streams.pop(op[1], None)
            elif k == "get":
                want = [[streams[op[1]]]] if op[1] in streams else []

                def f(r, want=want, n=op[1]):
                    if r.get("st") != "ok" or r["rows"] != want:
                        return "stream %r reads %s, expected %s" % (n, hist.short(r.get("rows")), hist.short(want))
                sc.add(["q", "0", X("SELECT `Data` FROM `_Streams` WHERE `Name` = ?"), "s" + op[1].encode().hex()], f)
            elif k == "list":
                check()
            elif k == "row":
                key, b = op[1], bytes.fromhex(op[2])
                sc.add(["q", "0", X("INSERT INTO `Bin` (`k`, `v`, `n`) VALUES (?, ?, 3)"), "s" + key.encode().hex(), param(b, op[3])],
                       hist.expect_fail if key in rows else hist.expect_ok)
                if key not in rows:
                    rows[key] = b
                    dead.discard("Bin." + key)
            elif k == "rowupd":
                b = bytes.fromhex(op[2])
                sc.add(["q", "0", X("UPDATE `Bin` SET `v` = ? WHERE `k` = ?"), "m" + b.hex(), "s" + op[1].encode().hex()], hist.expect_ok)
                if op[1] in rows:
                    rows[op[1]] = b
            elif k == "rowdel":
                sc.add(["q", "0", X("DELETE FROM `Bin` WHERE `k` = '%s'" % op[1])], hist.expect_ok)
                if op[1] in rows:
                    del rows[op[1]]
                    dead.add("Bin." + op[1])
            elif k == "held":
                # a query held open over other work still reads everything
                sc.add(["qnew", "1", "0", X("SELECT `Name`, `Data` FROM `_Streams`")], hist.expect_ok)
                sc.add(["qexec", "1"], hist.expect_ok)
                n = len(streams) + len(rows)
                for i in range(n):
                    def f(r, i=i):
                        if r.get("row") is None or r["row"][1] is None:
                            return "row %d of the streams is %s" % (i, hist.short(r.get("row")))
                    sc.add(["qfetch", "1"], f)
                sc.add(["qclose", "1"])
                sc.add(["qfree", "1"])
            elif k == "commit":
                sc.add(["commit", "0"], hist.expect_ok)
                saved = (dict(streams), dict(rows), set(dead), dict(stor))
                check()
            elif k == "reopen":
                sc.add(["commit", "0"], hist.expect_ok)
                sc.add(["close", "0"])
                sc.add(["open", "0", X(path), "4", "N"], hist.expect_ok)
                saved = (dict(streams), dict(rows), set(dead), dict(stor))
                check()
            elif k == "rollback":
                sc.add(["close", "0"])
                sc.add(["open", "0", X(path), "4", "N"], hist.expect_ok)
                streams, rows, dead, stor = dict(saved[0]), dict(saved[1]), set(saved[2]), dict(saved[3])
                check()
            elif k == "stlist":
                sc.query(0, "SELECT `Name` FROM `_Storages`", [], hist.expect_rows([[n] for n in stor]))
            elif k == "stadd":
                if op[1] in stor:
                    continue
                stor[op[1]] = tree(op[2])
                fn = os.path.join(d, "st%d" % nfile)
                nfile += 1
                with open(fn, "wb") as f:
                    f.write(cfb.write({n: v for n, v in stor[op[1]].items() if n is not None}, stor[op[1]][None]))
                sc.add(["q", "0", X("INSERT INTO `_Storages` (`Name`, `Data`) VALUES (?, ?)"), "s" + op[1].encode().hex(), "f" + os.fsencode(fn).hex()], hist.expect_ok)
            elif k == "stbad":
                # not a storage
                sc.add(["q", "0", X("INSERT INTO `_Storages` (`Name`, `Data`) VALUES ('StoBad', ?)"), param(b"nothing" * 90, "file")], hist.expect_fail)
            elif k == "stdel":
                sc.query(0, "DELETE FROM `_Storages` WHERE `Name` = '%s'" % op[1], [], hist.expect_ok)
                stor.pop(op[1], None)
        sc.add(["commit", "0"], hist.expect_ok)
        sc.add(["close", "0"])
        sc.add(["open", "0", X(path), "1", "N"], hist.expect_ok)
        check()
        sc.add(["close", "0"])
        sc.run(env.drv)
        data = open(path, "rb").read()
        try:
            f = msifmt.read(data)
        except cfb.Bad as e:
            raise Violation("committed file: not a well-formed MSI database: %s" % e)
        want = dict(streams)
        want.update({"Bin." + k: v for k, v in rows.items()})
        got = {n: b for n, b in f.streams.items() if n in want or n not in dead}
        if got != want:
            raise Violation("the committed file has streams %s, expected %s" % (hist.short(got), hist.short(want)))
        gs = {n: untree(e) for n, e in f.storages.items()}
        if gs != stor:
            raise Violation("the committed file has storages %s, expected %s" % (hist.short(gs), hist.short(stor)))
        if stor:
            labels.add("storages")
        if case["tool"] and want:
            labels.add("tool")
            r = tools.run([env.p.msiinfo, "streams", path])
            lines = [l for l in r.out.decode("utf-8", "replace").split("\n") if l]
            if r.rc or sorted(l for l in lines if l not in dead or l in want) != sorted(want):
                raise Violation("msiinfo streams: rc %d, printed %r, expected %r" % (r.rc, lines, sorted(want)))
            for n in sorted(want)[:3]:
                r = tools.run([env.p.msiinfo, "extract", path, n])
                if r.rc or r.out != want[n]:
                    raise Violation("msiinfo extract %r: rc %d, %d bytes, expected %d" % (n, r.rc, len(r.out), len(want[n])))
        return len(want) >= 2, labels


PROP = P07
