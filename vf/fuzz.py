"""Inputs for the fuzz targets: the format of harness/fuzz_msi.c, generated well-formed inputs, and a persistent process to run them."""
import os, random, re, shutil, signal, struct, subprocess, tempfile

from . import cfb, msifmt, model as M, suminfo
from .core import Violation
from .driver import ASAN, asan_summary

NAMES = ["_StringPool", "_StringData", "_Tables", "_Columns", "\x05SummaryInformation", "A", "B", "C", "_Validation", "Tab", "Property", "File"]
DB, MST, MERGE, PATCH, DEEP, RAW, MODIFY = 0, 1, 2, 3, 4, 8, 16


def blob(mode, streams):
    """streams: list of (decoded name, bytes); table streams have a leading NUL in their name"""
    out = bytes([mode])
    for n, d in streams:
        d = d[:0xffff]
        if n.lstrip("\0") in NAMES and (n[0] == "\0" or n[0] == "\x05"):
            out += bytes([NAMES.index(n.lstrip("\0"))])
        elif n[0] == "\0":
            e = n[1:].encode()
            out += bytes([255, len(e)]) + e
        else:
            e = msifmt.encode_name(n).encode()
            out += bytes([254, len(e)]) + e
        out += struct.pack("<H", len(d)) + d
    return out


def container(mode, streams):
    tree = {}
    for n, d in streams:
        tree[n if n[0] == "\x05" else msifmt.encode_name(n[1:], True) if n[0] == "\0" else msifmt.encode_name(n)] = d
    return cfb.write(tree, [msifmt.CLSID_MSI, msifmt.CLSID_MST, msifmt.CLSID_MSI, msifmt.CLSID_MSP][mode & 3])


WORDS = ["", "a", "b", "key", "long value " * 4, "é", "x.y", "C:\\dir", "{12345678-1234-1234-1234-123456789012}", "A", "B", "Name", "k0", "k1", "s1", "x", "\t", "q'q"]


def rows(r, t):
    seen = set()
    for i in range(r.choice([0, 1, 2, 5, 9])):
        row = []
        for c in t.cols:
            if c.kind == "s":
                v = r.choice(WORDS) + (str(i) if c.key else "")
            elif c.kind == "b":
                v = r.choice([None, b"data", b"x" * 300])
            else:
                v = r.choice([None, 0, 1, -1, 5, 32767, -32767] + ([70000, -70000] if c.kind == "i4" else []))
            if v is None and (c.key or not c.null):
                v = i
            row.append(v)
        k = tuple(row[j] for j in t.keyidx())
        if k not in seen and (len(msifmt.encode_name(".".join([t.name] + [str(x) for x in k]))) <= 31 or all(c.kind != "b" for c in t.cols)):
            seen.add(k)
            t.rows.append(row)
    return t


def base_tables():
    C = M.Col
    return [M.Table("A", [C("Id", "i2", 0, False, False, True), C("S", "s", 40, True, False, False), C("L", "i4", 0, True, False, False)]),
            M.Table("B", [C("K", "s", 20, False, False, True), C("D", "b", 0, True, False, False), C("N", "i2", 0, True, False, False)]),
            M.Table("C", [C("K1", "s", 20, False, False, True), C("K2", "i2", 0, False, False, True), C("V", "s", 0, True, True, False)])]


def seed_db(r):
    tabs = [rows(r, t) for t in base_tables() if r.random() < .7]
    for n in ("Tab", "Property", "File", "Other.Name"):
        if r.random() < .35:
            cols = [M.Col("k%d" % i, r.choice(["s", "i2", "i4"]), 0, False, False, True) for i in range(r.choice([1, 1, 2]))]
            cols += [M.Col("c%d" % i, r.choice(["s", "i2", "i4"]), r.choice([0, 20, 255]), r.random() < .8, False, False) for i in range(r.choice([0, 1, 3, 12, 28]))]
            for c in cols:
                if c.kind != "s":
                    c.width = 0
            if r.random() < .3:
                cols.append(M.Col("bin", "b", 0, True, False, False))
            tabs.append(rows(r, M.Table(n, cols)))
    w = msifmt.Writer(r.choice([0, 1252, 65001]), r.choice([2, 2, 3]), holes=r.choice([0, 0, 1]))
    f = cfb.read(w.build(tabs, {"s1": b"abc", "a stream": b"d" * 70} if r.random() < .5 else {}))
    return split(f) + summary(r)


def split(root):
    out = []
    for n, e in root.children.items():
        t, name = msifmt.decode_name(n)
        out.append((n if n[0] == "\x05" else "\0" + name if t else name, e.data))
    order = {"\0_StringPool": 0, "\0_StringData": 1, "\0_Tables": 2, "\0_Columns": 3}
    return sorted(out, key=lambda x: (order.get(x[0], 9), x[0]))


def summary(r):
    if r.random() < .4:
        return []
    p = {1: r.choice([1252, 65001])}
    for i in range(2, 20):
        if r.random() < .6:
            k = suminfo.kind(i)
            p[i] = r.choice([0, 200, -1]) if k == "int" else r.choice([0, 132000000000000000]) if k == "time" else r.choice(WORDS).encode("ascii", "ignore").decode()
    return [("\x05SummaryInformation", suminfo.write(p, gap=r.choice([0, 4])))]


def seed_mst(r):
    w = msifmt.Writer(r.choice([0, 65001]), r.choice([2, 2, 3]))
    b = w.bps
    s = lambda x: w.id(x).to_bytes(b, "little")
    i2 = lambda v: struct.pack("<H", v + 0x8000 & 0xffff)
    i4 = lambda v: struct.pack("<I", v + 0x80000000 & 0xffffffff)
    tree = {}
    bodies = {"A": b"", "B": b"", "C": b"", "Tab": b""}
    tr = cr = b""
    for k in range(r.choice([1, 3, 6])):
        op = r.choice(["add", "del", "mod", "addb", "modb", "addc", "modc", "newt", "newc"])
        n = r.choice([0, 1, 3, 9, 77])
        if op == "add":
            bodies["A"] += struct.pack("<H", 0x301) + i2(n) + s(r.choice(WORDS)) + i4(5)
        elif op == "del":
            bodies["A"] += struct.pack("<H", 0) + i2(n)
        elif op == "mod":
            bodies["A"] += struct.pack("<H", 4) + i2(n) + i4(n) if r.random() < .5 else struct.pack("<H", 6) + i2(n) + s("new") + i4(n)
        elif op == "addb":
            bodies["B"] += struct.pack("<H", 0x301) + s("y%d" % n) + struct.pack("<H", 1) + i2(3)
            tree["B.y%d" % n] = b"stream"
        elif op == "modb":
            bodies["B"] += struct.pack("<H", 2) + s("x") + struct.pack("<H", 1)
            tree["B.x"] = b"other"
        elif op == "addc":
            bodies["C"] += struct.pack("<H", 0x301) + s("k9") + i2(n) + s("v")
        elif op == "modc":
            bodies["C"] += struct.pack("<H", 4) + s("k0") + i2(0) + s("w")
        elif op == "newt" and not tr:
            tr += struct.pack("<H", 0x101) + s("Tab")
            for i, (c, t) in enumerate((("k", 0x2d02 - 0x800), ("v", 0x1d20))):
                cr += struct.pack("<H", 0x401) + s("Tab") + struct.pack("<H", 0) + s(c) + struct.pack("<H", t + 0x8000 & 0xffff)
            bodies["Tab"] += struct.pack("<H", 0x201) + i2(4) + s("value")
        elif op == "newc" and b"A" not in cr:
            cr += struct.pack("<H", 0x401) + s("A") + i2(4) + s("Extra") + i2(0x1502)
    for n, d in bodies.items():
        if d:
            tree["\0" + n] = d
    if tr:
        tree["\0_Tables"] = tr
    if cr:
        tree["\0_Columns"] = cr
    pool = bytearray(struct.pack("<HH", w.codepage & 0xffff, 0x8000 if b == 3 else 0))
    data = b""
    for x, c in zip(w.strs[1:], w.count[1:]):
        e = x.encode(w.enc)
        pool += struct.pack("<HH", len(e), c)
        data += e
    return [("\0_StringPool", bytes(pool)), ("\0_StringData", data)] + list(tree.items())


def seed(kind, n):
    r = random.Random("%s %d" % (kind, n))
    return (seed_mst if kind == MST else seed_db)(r)


INTERESTING = [0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x301, 0x400, 0x401, 0xd00, 0x1f01, 0x2001, 0x3fff, 0x7fff, 0x8000, 0x8001, 0x8002, 0x8003, 0x8004, 0x8020, 0x8021, 0xa502, 0xa104, 0xfd00, 0xfffe, 0xffff, 0x10000, 0x10001,
               0xffffff, 0x800000, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff]


def mutate(mode, streams, muts):
    """-> the input"""
    st = list(streams)
    raw = None
    for m in muts:
        k = m[0]
        if k == "raw":
            if raw is None:
                raw = bytearray(container(mode, st))
            pos = m[1] % len(raw) if m[1] >= 0 else m[1] % min(len(raw), 2048)
            raw[pos:pos + m[2]] = (m[3] & (1 << 8 * m[2]) - 1).to_bytes(m[2], "little")
            continue
        if k == "rawcut":
            if raw is None:
                raw = bytearray(container(mode, st))
            raw = raw[:m[1] * len(raw) >> 16] or raw[:1]
            continue
        if raw is not None or not st:
            continue
        i = m[1] % len(st)
        n, d = st[i]
        if k == "set":
            if not d:
                continue
            pos = m[2] * len(d) >> 16
            d = d[:pos] + (m[4] & (1 << 8 * m[3]) - 1).to_bytes(m[3], "little") + d[pos + m[3]:]
        elif k == "set2":
            # the values of tables are two bytes wide
            if len(d) < 2:
                continue
            pos = (m[2] * (len(d) // 2) >> 16) * 2
            d = d[:pos] + struct.pack("<H", m[3] & 0xffff) + d[pos + 2:]
        elif k == "cut":
            d = d[:len(d) - m[2]] if m[2] < 100 else d[:(m[2] - 100) * len(d) // 1000]
        elif k == "ext":
            d = d + bytes.fromhex(m[2])
        elif k == "ins":
            pos = m[2] * len(d) >> 16
            d = d[:pos] + bytes.fromhex(m[3]) + d[pos:]
        elif k == "rep":
            d = d * m[2]
        elif k == "del":
            st.pop(i)
            continue
        elif k == "copy":
            d = st[m[2] % len(st)][1]
        elif k == "new":
            if all(x != m[2] for x, _ in st):
                st.append((m[2], bytes.fromhex(m[3])))
            continue
        st[i] = (n, d)
    if raw is not None:
        return bytes([mode | RAW]) + bytes(raw)
    return blob(mode, st)


class Persist:
    """A process that runs inputs one after the other."""
    def __init__(self, cmd, tmp):
        self.cmd, self.tmp, self.p, self.n = cmd, tmp, None, 0

    def start(self):
        self.n = 0
        self.err = open(os.path.join(self.tmp, "fuzz-stderr"), "w+b")
        d = os.path.join(self.tmp, "fz")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        env = dict(os.environ, ASAN_OPTIONS=ASAN, LC_ALL="C.UTF-8", TZ="UTC", TMPDIR=d)
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=d)

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    def run(self, data, again=False):
        """Raises Violation when the process dies; with again, true if every repetition leaves memory behind."""
        if self.p is None or self.n > 5000:
            self.stop()
            self.start()
        self.n += 1
        try:
            self.p.stdin.write(struct.pack("<I", len(data) | (again << 31)) + data)
            self.p.stdin.flush()
            a = self.p.stdout.read(1)
        except BrokenPipeError:
            a = b""
        if again and a == b"L":
            return True
        if a != b".":
            rc = self.p.wait()
            self.err.flush()
            self.err.seek(0)
            e = self.err.read().decode("utf-8", "replace")
            self.stop()
            raise Violation("%s (exit status %s)\n%s" % ("does not end within 30 s" if rc == -signal.SIGALRM else "dies", rc, asan_summary(e)))


def campaign(binary, seeds, tmp, seconds, jobs=8, seed=1, runs=None, max_len=20000, dictionary=None):
    """Coverage-guided search; -> (executions, coverage, [(input, report)])"""
    corpus = os.path.join(tmp, "corpus")
    os.makedirs(corpus)
    for i, s in enumerate(seeds):
        open(os.path.join(corpus, "s%05d" % i), "wb").write(s)
    procs = []
    for j in range(jobs):
        d = os.path.join(tmp, "j%d" % j)
        os.makedirs(os.path.join(d, "tmp"))
        os.makedirs(os.path.join(d, "c"))
        cmd = [binary, os.path.join(d, "c"), corpus, "-seed=%d" % (seed * 100 + j + 1), "-max_len=%d" % max_len, "-timeout=25", "-rss_limit_mb=3000", "-artifact_prefix=" + d + "/", "-print_final_stats=1",
               "-detect_leaks=0", "-reload=0"]
        cmd += ["-max_total_time=%d" % seconds] + (["-runs=%d" % runs] if runs else []) + (["-dict=" + dictionary] if dictionary else [])
        f = open(os.path.join(d, "log"), "wb")
        env = dict(os.environ, ASAN_OPTIONS=ASAN.replace("handle_abort=1", "handle_abort=1:quarantine_size_mb=16"), LC_ALL="C.UTF-8", TZ="UTC", TMPDIR=os.path.join(d, "tmp"))
        procs.append((subprocess.Popen(cmd, stdout=f, stderr=f, env=env, cwd=d), d, f))
    ex = cov = 0
    found = []
    for p, d, f in procs:
        try:
            p.wait(seconds + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        f.close()
        log = open(os.path.join(d, "log"), errors="replace").read()
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", log)
        ex += int(m.group(1)) if m else 0
        c = [int(x) for x in re.findall(r"cov: (\d+)", log)]
        cov = max(cov, max(c) if c else 0)
        for n in sorted(os.listdir(d)):
            if re.match(r"(crash|timeout|oom)-", n):
                found.append((open(os.path.join(d, n), "rb").read(), n.split("-")[0] + "\n" + asan_summary(log)))
    return ex, cov, found
