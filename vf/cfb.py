"""An independent reader and writer of OLE compound files (MS-CFB), version 3."""
import struct

FREE, END, FATSECT, DIFSECT = 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0xFFFFFFFC
NOSTREAM = 0xFFFFFFFF
MAGIC = bytes.fromhex("d0cf11e0a1b11ae1")


class Bad(Exception):
    """The file is not a well-formed compound file."""


class Entry:
    def __init__(self):
        self.name = ""
        self.type = 0
        self.clsid = b"\0" * 16
        self.children = {}
        self.data = b""


def read(data):
    """-> (root Entry); raises Bad if the structure is not well-formed."""
    if len(data) < 512 or data[:8] != MAGIC:
        raise Bad("no compound file header")
    minor, major, bom, ssh, mssh = struct.unpack_from("<5H", data, 24)
    if bom != 0xFFFE or major not in (3, 4) or ssh not in (9, 12) or mssh != 6:
        raise Bad("bad header fields")
    ss = 1 << ssh
    nfat, dirstart, _, minicut, ministart, nmini, difstart, ndif = struct.unpack_from("<8I", data, 44)
    nsect = (len(data) - ss + ss - 1) // ss

    def sect(i):
        off = (i + 1) * ss
        if i >= nsect:
            raise Bad("sector %d outside the file" % i)
        b = data[off:off + ss]
        return b + b"\0" * (ss - len(b))
    difat = list(struct.unpack_from("<109I", data, 76))
    s = difstart
    n = 0
    while s not in (END, FREE) and n < ndif:
        b = struct.unpack("<%dI" % (ss // 4), sect(s))
        difat += b[:-1]
        s = b[-1]
        n += 1
    fatsects = [x for x in difat if x not in (FREE, END)]
    if len(fatsects) != nfat:
        raise Bad("header says %d FAT sectors, %d listed" % (nfat, len(fatsects)))
    fat = []
    for x in fatsects:
        fat += struct.unpack("<%dI" % (ss // 4), sect(x))
    owner = {}

    def chain(start, who, table, limit):
        out = []
        s = start
        while s != END:
            if s >= len(table) or s >= limit:
                raise Bad("chain of %s leaves the file" % who)
            if (table is fat) and s in owner:
                raise Bad("sector %d used by %s and %s" % (s, owner[s], who))
            if table is fat:
                owner[s] = who
            out.append(s)
            if len(out) > limit:
                raise Bad("chain of %s loops" % who)
            s = table[s]
        return out
    for x in fatsects:
        owner[x] = "FAT"
    dirdata = b"".join(sect(x) for x in chain(dirstart, "directory", fat, nsect))
    minifat = []
    if ministart != END and nmini:
        for x in chain(ministart, "minifat", fat, nsect):
            minifat += struct.unpack("<%dI" % (ss // 4), sect(x))
    ents = []
    for i in range(len(dirdata) // 128):
        e = dirdata[i * 128:(i + 1) * 128]
        nl = struct.unpack_from("<H", e, 64)[0]
        ent = Entry()
        ent.type = e[66]
        ent.left, ent.right, ent.child = struct.unpack_from("<3I", e, 68)
        ent.clsid = e[80:96]
        ent.start, ent.size = struct.unpack_from("<II", e, 116)
        if ent.type:
            if nl < 2 or nl > 64 or nl % 2:
                raise Bad("directory entry %d: name length %d" % (i, nl))
            ent.name = e[:nl - 2].decode("utf-16-le", "surrogatepass")
            if e[nl - 2:nl] != b"\0\0":
                raise Bad("directory entry %d: name not terminated" % i)
        ents.append(ent)
    if not ents or ents[0].type != 5:
        raise Bad("no root entry")
    root = ents[0]
    minidata = b"".join(sect(x) for x in chain(root.start, "ministream", fat, nsect)) if root.size else b""
    mlimit = len(minidata) // 64
    mowner = set()
    seen = set()

    def walk(i, parent, depth=0):
        if i == NOSTREAM:
            return
        if i >= len(ents) or i in seen or not ents[i].type:
            raise Bad("directory tree refers to a bad entry %d" % i)
        if depth > 4000:
            raise Bad("directory tree too deep")
        seen.add(i)
        e = ents[i]
        walk(e.left, parent, depth + 1)
        if e.name in parent.children:
            raise Bad("two entries named %r" % e.name)
        parent.children[e.name] = e
        if e.type == 2:
            if e.size >= minicut:
                b = b"".join(sect(x) for x in chain(e.start, "stream %r" % e.name, fat, nsect))
            elif e.size:
                c = chain(e.start, "ministream %r" % e.name, minifat, mlimit)
                for x in c:
                    if x in mowner:
                        raise Bad("mini sector %d used twice" % x)
                    mowner.add(x)
                b = b"".join(minidata[x * 64:x * 64 + 64] for x in c)
            else:
                b = b""
            if len(b) < e.size:
                raise Bad("stream %r: chain shorter than its size" % e.name)
            e.data = b[:e.size]
        elif e.type == 1:
            walk(e.child, e, depth + 1)
        walk(e.right, parent, depth + 1)
    import sys
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))
    walk(root.child, root)
    return root


def sortkey(name):
    return (len(name.encode("utf-16-le", "surrogatepass")), name.upper())


def write(tree, clsid=b"\0" * 16, minicut=4096):
    """tree: dict name -> bytes | dict (sub-storage, optionally with key None: its clsid)."""
    ss = 512
    ents = []       # [name, type, left, right, child, clsid, start, size]
    big = []        # sectors
    fat = []
    mini = bytearray()
    minifat = []

    def alloc(b):
        if not b:
            return END
        n = (len(b) + ss - 1) // ss
        s = len(big)
        for i in range(n):
            big.append(b[i * ss:(i + 1) * ss].ljust(ss, b"\0"))
            fat.append(s + i + 1 if i < n - 1 else END)
        return s

    def malloc_(b):
        n = (len(b) + 63) // 64
        s = len(minifat)
        for i in range(n):
            mini.extend(b[i * 64:(i + 1) * 64].ljust(64, b"\0"))
            minifat.append(s + i + 1 if i < n - 1 else END)
        return s

    ents.append(["Root Entry", 5, NOSTREAM, NOSTREAM, NOSTREAM, clsid, END, 0])

    def add(children):
        ids = []
        for name in sorted((n for n in children if n is not None), key=sortkey):
            v = children[name]
            i = len(ents)
            if isinstance(v, dict):
                ents.append([name, 1, NOSTREAM, NOSTREAM, NOSTREAM, v.get(None, b"\0" * 16), 0, 0])
                ents[i][4] = add(v)
            else:
                st = END if not v else alloc(v) if len(v) >= minicut else malloc_(v)
                ents.append([name, 2, NOSTREAM, NOSTREAM, NOSTREAM, b"\0" * 16, st, len(v)])
            ids.append(i)

        def tree_(lo, hi):
            if lo >= hi:
                return NOSTREAM
            m = (lo + hi) // 2
            ents[ids[m]][2] = tree_(lo, m)
            ents[ids[m]][3] = tree_(m + 1, hi)
            return ids[m]
        return tree_(0, len(ids))
    ents[0][4] = add(tree)
    if mini:
        ents[0][6] = alloc(bytes(mini))
        ents[0][7] = len(mini)
    d = b""
    for name, t, l, r, c, cl, st, sz in ents:
        nb = name.encode("utf-16-le", "surrogatepass") + b"\0\0"
        assert len(nb) <= 64, name
        d += nb.ljust(64, b"\0") + struct.pack("<HBB", len(nb), t, 1) + struct.pack("<3I", l, r, c) + cl + b"\0" * 20 + struct.pack("<IQ", st, sz)
    while len(d) % ss:
        d += b"\0" * 64 + struct.pack("<HBB", 0, 0, 0) + struct.pack("<3I", NOSTREAM, NOSTREAM, NOSTREAM) + b"\0" * 48
    dirstart = alloc(d)
    mstart, nmini = END, 0
    if minifat:
        b = struct.pack("<%dI" % len(minifat), *minifat)
        while len(b) % ss:
            b += struct.pack("<I", FREE)
        nmini = len(b) // ss
        mstart = alloc(b)
    nf = 0
    while (len(fat) + nf + 127) // 128 > nf:
        nf += 1
    assert nf <= 109
    fstart = len(big)
    fat += [FATSECT] * nf
    fat += [FREE] * (nf * 128 - len(fat))
    for i in range(nf):
        big.append(struct.pack("<128I", *fat[i * 128:(i + 1) * 128]))
    difat = [fstart + i for i in range(nf)] + [FREE] * (109 - nf)
    h = MAGIC + b"\0" * 16 + struct.pack("<5H", 0x3E, 3, 0xFFFE, 9, 6) + b"\0" * 6 + struct.pack(
        "<9I", 0, nf, dirstart, 0, minicut, mstart, nmini, END, 0) + struct.pack("<109I", *difat)
    assert len(h) == 512
    return h + b"".join(big)
