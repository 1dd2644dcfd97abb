"""An independent reader and writer of cabinet files (stored and MSZIP folders)."""
import struct, zlib


class Bad(Exception):
    pass


def checksum(data, seed=0):
    c = seed
    n = len(data) // 4
    for w in struct.unpack("<%dI" % n, data[:n * 4]):
        c ^= w
    rest = data[n * 4:]
    v = 0
    for b in rest:
        v = v << 8 | b
    return c ^ v


class Entry:
    """name, data, folder, attr, date, time"""

    def __repr__(self):
        return "<%s %d>" % (self.name, len(self.data))


def read(data):
    """-> [Entry] in directory order; everything is verified."""
    if data[:4] != b"MSCF":
        raise Bad("no cabinet signature")
    (r1, size, r2, off, r3, minor, major, nfold, nfile, flags, setid, icab) = struct.unpack("<IIIIIBBHHHHH", data[4:36])
    if size != len(data):
        raise Bad("size %d in the header, %d bytes" % (size, len(data)))
    if (major, minor) != (1, 3):
        raise Bad("version")
    if flags:
        raise Bad("flags %d" % flags)
    p = 36
    folders = []
    for i in range(nfold):
        folders.append(struct.unpack("<IHH", data[p:p + 8]))
        p += 8
    ents = []
    p = off
    for i in range(nfile):
        cb, uoff, ifold, date, time, attr = struct.unpack("<IIHHHH", data[p:p + 16])
        p += 16
        e = data.index(b"\0", p)
        raw = data[p:e]
        p = e + 1
        x = Entry()
        x.name = raw.decode("utf-8" if attr & 0x80 else "latin-1")
        x.size, x.off, x.folder, x.date, x.time, x.attr = cb, uoff, ifold, date, time, attr
        ents.append(x)
    plain = []
    for start, nblk, comp in folders:
        q = start
        out = b""
        for i in range(nblk):
            if q + 8 > len(data):
                raise Bad("data block outside of the cabinet")
            cs, clen, ulen = struct.unpack("<IHH", data[q:q + 8])
            blk = data[q + 8:q + 8 + clen]
            if len(blk) != clen:
                raise Bad("short data block")
            if cs and checksum(data[q + 4:q + 8], checksum(blk)) != cs:
                raise Bad("checksum of data block %d" % i)
            q += 8 + clen
            if comp & 15 == 0:
                u = blk
            elif comp & 15 == 1:
                if blk[:2] != b"CK":
                    raise Bad("MSZIP signature")
                d = zlib.decompressobj(-15, zdict=out[-32768:]) if out else zlib.decompressobj(-15)
                u = d.decompress(blk[2:]) + d.flush()
            else:
                raise Bad("compression %d" % comp)
            if len(u) != ulen:
                raise Bad("block of %d bytes, %d announced" % (len(u), ulen))
            if ulen > 32768:
                raise Bad("data block of %d bytes" % ulen)
            out += u
        plain.append(out)
    used = [0] * len(folders)
    for x in ents:
        if x.folder >= len(plain):
            raise Bad("folder index")
        x.data = plain[x.folder][x.off:x.off + x.size]
        if len(x.data) != x.size:
            raise Bad("file %s outside of its folder" % x.name)
    return ents


def write(files, folders=1, method="mszip", block=32768):
    """files: [(name, bytes)] spread over folders in order."""
    per = [[] for _ in range(folders)]
    for i, f in enumerate(files):
        per[min(i * folders // max(1, len(files)), folders - 1)].append(f)
    per = [x for x in per if x]
    hdrs, blobs = [], []
    for fs in per:
        plain = b"".join(d for _, d in fs)
        blk = b""
        n = 0
        hist = b""
        for i in range(0, len(plain), block):
            u = plain[i:i + block]
            if method == "mszip":
                c = zlib.compressobj(9, zlib.DEFLATED, -15, zdict=hist[-32768:]) if hist else zlib.compressobj(9, zlib.DEFLATED, -15)
                b = b"CK" + c.compress(u) + c.flush()
            else:
                b = u
            hist += u
            head = struct.pack("<HH", len(b), len(u))
            blk += struct.pack("<I", checksum(head, checksum(b))) + head + b
            n += 1
        blobs.append((blk, n))
    fe = b""
    for k, fs in enumerate(per):
        off = 0
        for name, d in fs:
            attr = 0x20
            try:
                raw = name.encode("ascii")
            except UnicodeEncodeError:
                raw = name.encode("utf-8")
                attr |= 0x80
            fe += struct.pack("<IIHHHH", len(d), off, k, 0x5a21, 0x6000, attr) + raw + b"\0"
            off += len(d)
    foff = 36 + 8 * len(per)
    pos = foff + len(fe)
    ft = b""
    for blk, n in blobs:
        ft += struct.pack("<IHH", pos, n, 1 if method == "mszip" else 0)
        pos += len(blk)
    body = ft + fe + b"".join(b for b, _ in blobs)
    return b"MSCF" + struct.pack("<IIIIIBBHHHHH", 0, 36 + len(body), 0, foff, 0, 3, 1, len(per), len(files), 0, 1234, 0) + body
