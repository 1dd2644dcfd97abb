"""Transforms written by an independent writer turn one database into the other."""
import os, struct

from hypothesis import strategies as st

from ..core import Prop, Violation, case_dir
from ..driver import X
from .. import cfb, hist, idt, model as M, msifmt
from . import p05


@st.composite
def wide_columns(draw):
    n = draw(st.sampled_from([15, 16, 17, 24, 31, 32, 32]))
    key = draw(st.integers(1, 3))
    return [M.Col("c%d" % i, draw(st.sampled_from(["s", "i2", "i4"])), 0, i >= key, False, i < key) for i in range(n)]


@st.composite
def cases(draw):
    txt = st.one_of(M.text(), M.text("uni"), idt.CTL)
    tabs, used, names = [], set(), {}
    for i in range(draw(st.integers(1, 4))):
        nm = draw(M.tname().filter(lambda s: s not in used))
        used.add(nm)
        wide = i == 0 and draw(st.integers(0, 7)) == 0
        cols = [c.json() for c in M.reorder(draw(M.columns(binary=draw(st.integers(0, 2)) == 0, maxcols=7)) if not wide else draw(wide_columns()))]
        new = draw(st.integers(0, 3)) == 0
        m = M.DB()
        m.apply({"op": "create", "t": nm, "cols": cols})
        t = m.t[nm]
        rows = []
        for j in range(draw(st.integers(0, 9))):
            op = draw(hist.insert_op(t, txt))
            op["temp"] = False
            if M.has_binary(t) and not hist.claim_stream(names, t, op):
                continue
            if m.apply(op)[2]:
                rows.append(t.rows[-1])
        out = []
        can = [i for i, c in enumerate(t.cols) if not c.key]
        for r in rows:
            fate = "add" if new else draw(st.sampled_from(["keep", "keep", "add", "del", "mod", "full", "gone+"]))
            a = b = list(r)
            if fate in ("mod", "full") and can:
                b = list(r)
                for i in draw(st.lists(st.sampled_from(can), min_size=1, max_size=len(can), unique=True)):
                    b[i] = M.norm(t.cols[i].kind, draw(M.value(t.cols[i], txt, nulls=t.cols[i].kind != "b")))
                    if b[i] is None and not t.cols[i].null:
                        b[i] = r[i]
            elif fate in ("mod", "full"):
                fate = "keep"
            out.append([fate, [M.enc_val(v) for v in a], [M.enc_val(v) for v in b]])
        extra = None
        if not new and len(cols) < 10 and draw(st.integers(0, 4)) == 0:
            extra = ["zz_new", draw(st.sampled_from(["s", "i2", "i4"])), 0, True, False, False]
        tabs.append({"t": nm, "cols": cols, "new": new, "rows": out, "extra": extra, "xv": draw(st.integers(0, 2))})
    return {"tabs": tabs, "bps": draw(st.sampled_from([2, 2, 3])), "cp": draw(st.sampled_from([0, 65001, 1252])), "pre": draw(st.booleans()),
            "bad": draw(st.sampled_from([None] * 6 + ["clsid", "missing", "garbage"])), "order": draw(st.booleans()), "reopen": draw(st.booleans())}


def utf8(rows):
    return any(isinstance(v, str) and not cp1252(v) for r in rows for v in r)


def cp1252(s):
    try:
        s.encode("cp1252")
        return True
    except UnicodeEncodeError:
        return False


class P15(Prop):
    id = "P15"
    quick = 450
    thorough = 8000
    rule = ("a case is a generated database and a transform (written by an independent implementation of the format: added, removed, partly or fully modified rows, new tables, new columns, binary data) "
            "applied to it; non-trivial: at least two rows differ")
    strategy = staticmethod(cases)

    def shrink(self, case):
        for i in range(len(case["tabs"])):
            if len(case["tabs"]) > 1:
                yield dict(case, tabs=case["tabs"][:i] + case["tabs"][i + 1:])
            for j in range(len(case["tabs"][i]["rows"])):
                t = dict(case["tabs"][i])
                t["rows"] = t["rows"][:j] + t["rows"][j + 1:]
                yield dict(case, tabs=case["tabs"][:i] + [t] + case["tabs"][i + 1:])

    def run(self, case, env):
        d = case_dir(env)
        path, mst = os.path.join(d, "a.msi"), os.path.join(d, "t.mst")
        base, target = M.DB(), M.DB()
        labels = set()
        w = msifmt.Writer(case["cp"], case["bps"])
        trows, crows, tree, streams = [], [], {}, {}
        changes = 0
        anyu = any(utf8([[M.dec_val(v) for v in r[k]] for r in t["rows"]]) for t in case["tabs"] for k in (1, 2))
        if anyu:
            w = msifmt.Writer(65001, case["bps"])
        for t in case["tabs"]:
            nm = t["t"]
            cols = [M.Col(*c) for c in t["cols"]]
            if len(cols) > 14:
                labels.add("wide")
            tgt = M.Table(nm, list(cols))
            if t["extra"]:
                tgt.cols.append(M.Col(*t["extra"]))
                labels.add("new-column")
            src = M.Table(nm, list(cols))
            if t["new"]:
                labels.add("new-table")
                trows.append(struct.pack("<H", 0x0101) + w.id(nm).to_bytes(w.bps, "little"))
            for i, c in enumerate(tgt.cols):
                if t["new"] or i >= len(cols):
                    crows.append(struct.pack("<H", 0x0401) + w.id(nm).to_bytes(w.bps, "little") + struct.pack("<H", 0 if t["new"] else i + 1 + 0x8000)
                                 + w.id(c.name).to_bytes(w.bps, "little") + struct.pack("<H", msifmt.coltype(c) + 0x8000 & 0xffff))
            body = b""
            keys = [i for i, c in enumerate(cols) if c.key]

            def field(c, v):
                z = w.bps if c.kind == "s" else 4 if c.kind == "i4" else 2
                return int(w.raw(c.kind, v)).to_bytes(z, "little")
            for fate, a, b in t["rows"]:
                a, b = [M.dec_val(v) for v in a], [M.dec_val(v) for v in b]
                if fate != "add":
                    src.rows.append(a)
                x = None
                if t["extra"] and t["xv"] and fate not in ("keep", "del"):
                    x = "new" if t["extra"][1] == "s" else 7
                bb = b + ([x] if t["extra"] else [])
                aa = a + ([None] if t["extra"] else [])
                if fate == "gone+":
                    # an added row which is there already
                    bb = aa
                    fate = "full"
                if fate != "del":
                    tgt.rows.append(bb)
                if fate == "keep":
                    continue
                labels.add(fate)
                changes += 1
                if fate == "del":
                    body += struct.pack("<H", 0) + b"".join(field(cols[i], a[i]) for i in keys)
                elif fate == "mod":
                    mask = 0
                    for i, c in enumerate(tgt.cols):
                        if not c.key and aa[i] != bb[i]:
                            mask |= 1 << i
                    if not mask:
                        continue
                    if mask >> 16:      # a mask has 16 bits: further columns take a full row
                        body += struct.pack("<H", len(tgt.cols) << 8 | 1) + b"".join(field(c, bb[i]) for i, c in enumerate(tgt.cols))
                        continue
                    body += struct.pack("<H", mask) + b"".join(field(c, bb[i]) for i, c in enumerate(tgt.cols) if c.key or mask >> i & 1)
                    sent = [i for i in range(len(tgt.cols)) if mask >> i & 1]
                else:
                    body += struct.pack("<H", len(tgt.cols) << 8 | 1) + b"".join(field(c, bb[i]) for i, c in enumerate(tgt.cols))
                if fate != "del":
                    for i, c in enumerate(tgt.cols):
                        if c.kind == "b" and bb[i] is not None:
                            streams[M.stream_name(tgt, bb)] = bb[i]
            src.temp = [False] * len(src.rows)
            tgt.temp = [False] * len(tgt.rows)
            if not t["new"]:
                base.t[nm] = src
            target.t[nm] = tgt
            if body:
                tree[msifmt.encode_name(nm, True)] = body
        if trows:
            tree[msifmt.encode_name("_Tables", True)] = b"".join(trows)
        if crows:
            tree[msifmt.encode_name("_Columns", True)] = b"".join(crows)
        pool = bytearray(struct.pack("<HH", w.codepage & 0xffff, 0x8000 if w.bps == 3 else 0))
        data = bytearray()
        for s, c in zip(w.strs[1:], w.count[1:]):
            e = s.encode(w.enc)
            pool += struct.pack("<HH", len(e), c)
            data += e
        tree[msifmt.encode_name("_StringPool", True)] = bytes(pool)
        tree[msifmt.encode_name("_StringData", True)] = bytes(data)
        for n, v in streams.items():
            tree[msifmt.encode_name(n)] = v
        bad = case["bad"]
        if bad != "missing":
            with open(mst, "wb") as f:
                f.write(b"no transform" * 100 if bad == "garbage" else cfb.write(tree, msifmt.CLSID_MSI if bad == "clsid" else msifmt.CLSID_MST))
        with open(path, "wb") as f:
            f.write(msifmt.Writer(65001 if anyu else 0).build(list(base.t.values())))
        sc = hist.Script()
        sc.add(["open", "0", X(path), "4", "N"], hist.expect_ok)
        if case["pre"]:
            hist.full_dump(sc, 0, base)
        if bad:
            labels.add("bad-" + bad)
            target = base
        sc.add(["xform", "0", X(mst)], hist.expect_fail if bad else hist.expect_ok)
        hist.full_dump(sc, 0, target)
        hist.catalog(sc, 0, target)
        sc.add(["commit", "0"], hist.expect_ok)
        hist.full_dump(sc, 0, target)
        sc.add(["close", "0"])
        sc.run(env.drv)
        f = p05.parse(path, "transformed file")
        p05.compare(target, f, "transformed file")
        p05.strings_ok(f, "transformed file")
        return changes >= 2 and not bad, labels


PROP = P15
