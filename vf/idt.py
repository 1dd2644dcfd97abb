"""An independent reader and writer of IDT text files, and generators of databases to export."""
import os

from hypothesis import strategies as st

from . import hist, model as M
from .core import Violation

ESC = {"\t": "\x10", "\r": "\x11", "\n": "\x19"}
UNESC = {v: k for k, v in ESC.items()}


def esc(s):
    return "".join(ESC.get(c, c) for c in s)


def unesc(s):
    return "".join(UNESC.get(c, c) for c in s)


def read(data, what):
    """-> (column names, types, table, keys, rows of raw strings)"""
    try:
        s = data.decode("utf-8")
    except UnicodeDecodeError as e:
        raise Violation("%s: not UTF-8: %s" % (what, e))
    if not s.endswith("\r\n"):
        raise Violation("%s: does not end with CR LF: %r" % (what, s[-40:]))
    lines = s[:-2].split("\r\n")
    for l in lines:
        if "\r" in l or "\n" in l or "\0" in l:
            raise Violation("%s: stray line end or NUL in line %r" % (what, l[:200]))
    if len(lines) < 3:
        raise Violation("%s: only %d lines" % (what, len(lines)))
    f = [l.split("\t") for l in lines]
    names, types, label = f[0], f[1], f[2]
    if len(names) != len(types):
        raise Violation("%s: %d names, %d types" % (what, len(names), len(types)))
    for l in f[3:]:
        if len(l) != len(names):
            raise Violation("%s: row %r has %d fields, expected %d" % (what, l, len(l), len(names)))
    return names, types, label[0], label[1:], f[3:]


def dirname(n):
    """The directory with the binary data of a table."""
    return {".": "%2E", "..": "%2E%2E"}.get(n, n.replace("/", "%2F"))


def check(t, data, what, bindir=None):
    """The exported text describes exactly the table."""
    names, types, name, keys, rows = read(data, what)
    if name != t.name:
        raise Violation("%s: table name %r" % (what, name))
    if names != [c.name for c in t.cols]:
        raise Violation("%s: columns %r, expected %r" % (what, names, [c.name for c in t.cols]))
    if types != [c.typestr() for c in t.cols]:
        raise Violation("%s: types %r, expected %r" % (what, types, [c.typestr() for c in t.cols]))
    if keys != [c.name for c in t.cols if c.key]:
        raise Violation("%s: keys %r" % (what, keys))
    got = []
    for r in rows:
        o = []
        for c, v in zip(t.cols, r):
            v = unesc(v)
            if v == "":
                o.append(None)
            elif c.kind in ("i2", "i4"):
                if str(int(v, 10) if v.lstrip("-").isdigit() else None) != v:
                    raise Violation("%s: integer written as %r" % (what, v))
                o.append(int(v))
            elif c.kind == "b":
                if "/" in v or v in (".", ".."):
                    raise Violation("%s: binary data in file %r" % (what, v))
                fn = os.path.join(bindir, dirname(t.name), v)
                if not os.path.isfile(fn):
                    raise Violation("%s: no file %r for binary data" % (what, fn))
                o.append(open(fn, "rb").read())
            else:
                o.append(v)
        got.append(o)
    a, b = M.multiset(got), M.multiset(t.rows)
    if a != b:
        raise Violation("%s: rows differ: unexpected %s, missing %s" % (
            what, hist.short([x for x in a if x not in b], 400), hist.short([x for x in b if x not in a], 400)))


def write(t, rng, bindir=None, opts=None):
    """Text of the table; opts: eol, final (a line end after the last row), nul (trailing NUL bytes)."""
    o = {"eol": "\r\n", "final": True, "nul": 0, "i0": False}
    o.update(opts or {})
    lines = [[c.name for c in t.cols], [c.typestr() for c in t.cols], [t.name] + [c.name for c in t.cols if c.key]]
    n = 0
    for r in t.rows:
        l = []
        for c, v in zip(t.cols, r):
            if v is None:
                l.append("")
            elif isinstance(v, bytes):
                n += 1
                fn = "f%d.ibd" % n
                td = os.path.join(bindir, dirname(t.name))
                os.makedirs(td, exist_ok=True)
                with open(os.path.join(td, fn), "wb") as f:
                    f.write(v)
                l.append(fn)
            elif isinstance(v, int):
                l.append(str(v))
            else:
                l.append(esc(v))
        lines.append(l)
    s = o["eol"].join("\t".join(l) for l in lines) + (o["eol"] if o["final"] else "")
    return s.encode() + b"\0" * o["nul"]


# strings with the characters that separate fields and lines in the files
CTL = st.text("ab \t\r\n'é", min_size=1, max_size=6)


def ambiguous(t):
    """A one-column table with an empty value: a line of its own cannot be told from a line end (known finding)."""
    return len(t.cols) == 1 and any(r[0] is None for r in t.rows)


@st.composite
def database(draw, kind="latin", ctl=True, maxrows=8, maxt=3):
    """A list of create and insert operations."""
    db = M.DB()
    ops, names = [], {}
    txt = M.text(kind)
    if ctl:
        txt = st.one_of(txt, txt, CTL)
    for i in range(draw(st.integers(1, maxt))):
        nm = draw(st.one_of(M.tname(), st.sampled_from(["Key", "Order", "Table", "Select", "Where", "Char", "A B", "a/b", "..", "../up"])).filter(lambda s: s not in db.t))
        op = {"op": "create", "t": nm, "cols": [c.json() for c in draw(M.columns(binary=True))]}
        db.apply(op)
        ops.append(op)
        t = db.t[nm]
        for j in range(draw(st.integers(0, maxrows))):
            op = draw(hist.insert_op(t, txt))
            if M.has_binary(t) and not hist.claim_stream(names, t, op):
                continue
            db.apply(op)
            if ambiguous(t):
                t.rows.pop()
                t.temp.pop()
                continue
            ops.append(op)
    return ops
