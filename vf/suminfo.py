"""An independent reader and writer of summary information property sets."""
import struct

from .core import Violation

FMTID = bytes.fromhex("e0859ff2f94f6810ab9108002b27b3d9")
INT = {1: "i2", 14: "i4", 15: "i4", 16: "i4", 19: "i4"}
STR = {2, 3, 4, 5, 6, 7, 8, 9, 18}
TIME = {10, 11, 12, 13}


def kind(p):
    return "int" if p in INT else "str" if p in STR else "time" if p in TIME else None


def read(b, what):
    def bad(m):
        raise Violation("%s: malformed summary information: %s" % (what, m))
    if len(b) < 56:
        bad("%d bytes" % len(b))
    if b[:4] != b"\xfe\xff\0\0" or b[24:28] != b"\1\0\0\0" or b[28:44] != FMTID:
        bad("header %s" % b[:44].hex())
    off, = struct.unpack_from("<I", b, 44)
    if off != 48:
        bad("section at %d" % off)
    size, n = struct.unpack_from("<II", b, off)
    if off + size != len(b):
        bad("section of %d bytes in %d" % (size, len(b)))
    out, spans = {}, []
    for i in range(n):
        pid, o = struct.unpack_from("<II", b, off + 8 + 8 * i)
        if pid in out:
            bad("property %d twice" % pid)
        if o < 8 + 8 * n or o + 8 > size or o % 4:
            bad("property %d at %d" % (pid, o))
        t, = struct.unpack_from("<I", b, off + o)
        p = off + o + 4
        want = {"int": (2, 3), "str": (30,), "time": (64,)}.get(kind(pid), ())
        if t not in want or pid == 1 and t != 2 or kind(pid) == "int" and pid != 1 and t != 3:
            bad("property %d has type %d" % (pid, t))
        if t in (2, 3):
            v, = struct.unpack_from("<i", b, p)
            end = o + 8
        elif t == 64:
            if o + 12 > size:
                bad("property %d too long" % pid)
            v, = struct.unpack_from("<Q", b, p)
            end = o + 12
        else:
            l, = struct.unpack_from("<I", b, p)
            if not l or o + 8 + l > size:
                bad("property %d of %d bytes" % (pid, l))
            s = b[p + 4:p + 4 + l]
            if s[-1:] != b"\0" or b"\0" in s[:-1]:
                bad("property %d is %r" % (pid, s))
            v = s[:-1].decode("utf-8", "surrogateescape")
            end = o + 8 + l
        out[pid] = v
        spans.append((o, end))
    spans.sort()
    for (a, b1), (c, d) in zip(spans, spans[1:]):
        if c < b1:
            bad("properties overlap")
    return out


def write(props, order=None, gap=0, unpadded=False):
    """props: {pid: value}; order: sequence of pids in which the values are stored; gap: bytes of padding between them."""
    ids = list(props)
    body, offs = b"", {}
    base = 8 + 8 * len(ids)
    for p in order or ids:
        offs[p] = base + len(body)
        v = props[p]
        k = kind(p)
        if k == "int":
            x = struct.pack("<Ii", 2 if p == 1 else 3, v)
        elif k == "time":
            x = struct.pack("<IQ", 64, v)
        else:
            s = v.encode("utf-8", "surrogateescape") + b"\0"
            x = struct.pack("<II", 30, len(s)) + s
            x += b"\0" * (-len(x) % 4)
        body += x + b"\0" * gap
    sec = struct.pack("<II", base + len(body), len(ids)) + b"".join(struct.pack("<II", p, offs[p]) for p in ids) + body
    return b"\xfe\xff\0\0" + struct.pack("<I", 0x00020005) + b"\0" * 16 + struct.pack("<I", 1) + FMTID + struct.pack("<I", 48) + sec
