"""An independent implementation of the MSI database format (string pool, table streams, stream names)."""
import struct

from . import cfb
from .model import Col

CHARS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz._"
CLSID_MSI = struct.pack("<IHH", 0x000C1084, 0, 0) + bytes.fromhex("c000000000000046")
CLSID_MST = struct.pack("<IHH", 0x000C1082, 0, 0) + bytes.fromhex("c000000000000046")
CLSID_MSP = struct.pack("<IHH", 0x000C1086, 0, 0) + bytes.fromhex("c000000000000046")
SUMMARY = "\x05SummaryInformation"
VALID, LOC, STRING, NULLABLE, KEY, TEMP = 0x100, 0x200, 0x800, 0x1000, 0x2000, 0x4000


def encode_name(name, table=False):
    out = "\u4840" if table else ""
    i = 0
    while i < len(name):
        a = CHARS.find(name[i])
        if a < 0:
            out += name[i]
        else:
            b = CHARS.find(name[i + 1]) if i + 1 < len(name) else -1
            if b >= 0:
                out += chr(0x3800 + a + (b << 6))
                i += 1
            else:
                out += chr(0x4800 + a)
        i += 1
    return out


def decode_name(name):
    """-> (is_table, name)"""
    table = name.startswith("\u4840")
    out = ""
    for ch in name[1 if table else 0:]:
        c = ord(ch)
        if 0x3800 <= c < 0x4800:
            out += CHARS[(c - 0x3800) & 63] + CHARS[(c - 0x3800) >> 6]
        elif 0x4800 <= c < 0x4840:
            out += CHARS[c - 0x4800]
        else:
            out += ch
    return table, out


def codec(cp):
    return {0: "cp1252", 65001: "utf-8", 20127: "ascii", 28591: "latin-1"}.get(cp, "cp%d" % cp)


def coltype(c):
    t = {"s": STRING | 0x400 | c.width, "i2": 0x400 | 2, "i4": 4, "b": STRING}[c.kind] | VALID
    if c.null:
        t |= NULLABLE
    if c.loc:
        t |= LOC
    if c.key:
        t |= KEY
    return t


def kind_of(t):
    if t & ~(NULLABLE | KEY) == STRING | VALID:
        return "b"
    if t & STRING:
        return "s"
    return "i4" if t & 0xff == 4 else "i2"


class File:
    """What a reader sees: .tables {name: ([(column, type)], [rows])}, .streams {name: bytes}, .codepage, .strings, .refs"""


def read(data, clsid=CLSID_MSI):
    """Parses a whole database strictly; raises cfb.Bad."""
    root = cfb.read(data)
    if clsid and root.clsid != clsid:
        raise cfb.Bad("class id %s" % root.clsid.hex())
    tabs, streams, storages = {}, {}, {}
    for n, e in root.children.items():
        t, name = decode_name(n)
        if e.type == 1:
            storages[n] = e
        elif t:
            if name in tabs:
                raise cfb.Bad("two streams for table %s" % name)
            tabs[name] = e.data
        else:
            if name in streams:
                raise cfb.Bad("two streams %s" % name)
            streams[name] = e.data
    f = File()
    f.streams, f.storages = streams, storages
    pool = tabs.pop("_StringPool", None)
    sdata = tabs.pop("_StringData", None)
    if pool is None or sdata is None:
        raise cfb.Bad("no string table")
    if len(pool) < 4 or len(pool) % 4:
        raise cfb.Bad("string pool of %d bytes" % len(pool))
    w = struct.unpack("<%dH" % (len(pool) // 2), pool)
    f.codepage = w[0] | (w[1] & 0x7fff) << 16
    f.bps = 3 if w[1] & 0x8000 else 2
    strs, refs = [""], [0]
    i, off = 1, 0
    n = len(pool) // 4
    while i < n:
        ln, rc = w[2 * i], w[2 * i + 1]
        if ln == 0 and rc == 0:
            strs.append(None)
            refs.append(0)
            i += 1
            continue
        if ln == 0:
            if i + 1 >= n:
                raise cfb.Bad("string pool ends within a long string")
            ln = rc << 16 | w[2 * i + 2]
            rc = w[2 * i + 3]
            i += 1
        if off + ln > len(sdata):
            raise cfb.Bad("string data too short")
        b = sdata[off:off + ln]
        try:
            strs.append(b.decode(codec(f.codepage)))
        except UnicodeDecodeError:
            raise cfb.Bad("string %d %r is not in code page %d" % (len(strs), b[:40], f.codepage))
        refs.append(rc)
        off += ln
        i += 1
    if off != len(sdata):
        raise cfb.Bad("string data has %d bytes, pool describes %d" % (len(sdata), off))
    live = [s for s in strs[1:] if s is not None]
    f.duplicates = len(live) - len(set(live))
    f.strings, f.refs = strs, refs
    if len(strs) > 0x10000 and f.bps == 2:
        raise cfb.Bad("more than 64k strings with two byte references")
    uses = [0] * len(strs)

    def s(i):
        if i == 0:
            return None
        if i >= len(strs) or strs[i] is None:
            raise cfb.Bad("reference to string %d, which does not exist" % i)
        uses[i] += 1
        return strs[i]

    def columns(data, kinds, what):
        size = [f.bps if k == "s" else 4 if k == "i4" else 2 for k in kinds]
        row = sum(size)
        if len(data) % row:
            raise cfb.Bad("table %s: %d bytes, rows of %d" % (what, len(data), row))
        n = len(data) // row
        out = [[] for _ in range(n)]
        raw = [[] for _ in range(n)]
        p = 0
        for k, z in zip(kinds, size):
            for r in range(n):
                v = int.from_bytes(data[p:p + z], "little")
                p += z
                raw[r].append(v)
                if k == "s":
                    out[r].append(s(v))
                elif k == "b":
                    out[r].append(("bin", v))
                else:
                    out[r].append(None if v == 0 else v - (1 << (8 * z - 1)))
        return out, raw
    tl, _ = columns(tabs.pop("_Tables", b""), ["s"], "_Tables")
    cl, craw = columns(tabs.pop("_Columns", b""), ["s", "i2", "s", "i2"], "_Columns")
    names = [r[0] for r in tl]
    if len(set(names)) != len(names):
        raise cfb.Bad("table listed twice")
    f.tables, f.raw = {}, {}
    for t in names:
        cs = sorted((r for r in cl if r[0] == t), key=lambda r: r[1])
        if [r[1] for r in cs] != list(range(1, len(cs) + 1)):
            raise cfb.Bad("columns of %s are numbered %r" % (t, [r[1] for r in cs]))
        types = [r[3] & 0xffff for r in cs]
        if not cs:
            raise cfb.Bad("table %s without columns" % t)
        rows, raw = columns(tabs.pop(t, b""), [kind_of(x) for x in types], t)
        f.tables[t] = ([(r[2], x) for r, x in zip(cs, types)], rows)
        f.raw[t] = raw
    for r in cl:
        if r[0] not in f.tables:
            raise cfb.Bad("column of a table %s that does not exist" % r[0])
    if tabs:
        raise cfb.Bad("table streams without a table: %s" % sorted(tabs))
    f.uses = uses
    return f


class Writer:
    """Writes a database as another producer could."""
    def __init__(self, codepage=0, bps=2, holes=0, dup=False, refs=None):
        self.codepage, self.bps, self.dup = codepage, bps, dup
        self.enc = codec(codepage)
        self.strs = [None]
        self.count = [0]
        self.ids = {}
        self.holes = holes

    def id(self, s):
        if s is None or s == "":
            return 0
        if s in self.ids:
            self.count[self.ids[s]] += 1
            return self.ids[s]
        for _ in range(self.holes):
            self.strs.append(None)
            self.count.append(0)
        self.strs.append(s)
        self.count.append(1)
        self.ids[s] = len(self.strs) - 1
        return self.ids[s]

    def table(self, kinds, rows):
        out = b""
        for j, k in enumerate(kinds):
            z = self.bps if k == "s" else 4 if k == "i4" else 2
            for r in rows:
                out += int(r[j]).to_bytes(z, "little")
        return out

    def raw(self, kind, v):
        if kind == "s":
            return self.id(v)
        if kind == "b":
            return 1 if v is not None else 0
        if v is None:
            return 0
        return v + (0x8000 if kind == "i2" else 0x80000000)

    def build(self, tables, streams=None, clsid=CLSID_MSI, reorder=None, extra=None, pool_first=None, empty_streams=True):
        """tables: model.Table list. Returns file bytes."""
        for s in pool_first or []:
            self.id(s)
        streams = dict(streams or {})
        tree = {}
        trows, crows = [], []
        bodies = []
        for t in tables:
            trows.append([self.id(t.name)])
            for i, c in enumerate(t.cols):
                crows.append([self.id(t.name), i + 1 + 0x8000, self.id(c.name), coltype(c) + 0x8000 & 0xffff])
            rows = [[self.raw(c.kind, v) for c, v in zip(t.cols, r)] for r in t.rows]
            order = sorted(range(len(rows)), key=lambda n: [rows[n][i] for i in t.keyidx()])
            rows = [rows[n] for n in order]
            bodies.append((t, rows))
            for r in t.rows:
                for c, v in zip(t.cols, r):
                    if c.kind == "b" and v is not None:
                        keys = [str(r[i]) if r[i] is not None else "" for i in t.keyidx()]
                        streams[".".join([t.name] + keys)] = v
        trows.sort()
        crows.sort()
        tree[encode_name("_Tables", True)] = self.table(["s"], trows)
        tree[encode_name("_Columns", True)] = self.table(["s", "i2", "s", "i2"], crows)
        for t, rows in bodies:
            b = self.table([c.kind for c in t.cols], rows)
            if b or empty_streams:
                tree[encode_name(t.name, True)] = b
        pool = bytearray(struct.pack("<HH", self.codepage & 0xffff, (self.codepage >> 16) | (0x8000 if self.bps == 3 else 0)))
        data = bytearray()
        for s, c in zip(self.strs[1:], self.count[1:]):
            if s is None:
                pool += b"\0\0\0\0"
                continue
            e = s.encode(self.enc)
            if len(e) > 0xffff:
                pool += struct.pack("<HH", 0, len(e) >> 16)
            pool += struct.pack("<HH", len(e) & 0xffff, min(c, 0xffff))
            data += e
        tree[encode_name("_StringPool", True)] = bytes(pool)
        tree[encode_name("_StringData", True)] = bytes(data)
        for n, v in streams.items():
            tree[encode_name(n) if not n.startswith("\x05") else n] = v
        tree.update(extra or {})
        return cfb.write(tree, clsid)
