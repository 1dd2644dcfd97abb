"""Python side of msidrv."""
import json, os, re, shutil, subprocess, tempfile


class Crash(Exception):
    """The code under test died (sanitizer report, signal, CPU limit)."""


class DriverBroken(Exception):
    pass


ASAN = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:exitcode=86:handle_abort=1:detect_stack_use_after_return=0"


def X(s):
    if s is None:
        return "N"
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogateescape")
    return "x" + s.hex()


def P(v):
    """A parameter of a query: None, int, str/bytes, ('stream', bytes) or ('file', path)."""
    if v is None:
        return "n"
    if isinstance(v, bool):
        raise TypeError
    if isinstance(v, int):
        return "i%d" % v
    if isinstance(v, (list, tuple)):
        if v[0] == "stream":
            return "m" + bytes(v[1]).hex()
        return "f" + os.fsencode(v[1]).hex()
    if isinstance(v, str):
        v = v.encode("utf-8", "surrogateescape")
    return "s" + v.hex()


def D(v):
    """Decodes one JSON value written by msidrv."""
    if isinstance(v, str):
        b = bytes.fromhex(v[1:])
        if v[0] == "s":
            return b.decode("utf-8", "surrogateescape")
        return b
    if isinstance(v, list):
        return [D(x) for x in v]
    return v


class Driver:
    def __init__(self, drv, env=None, keep=None):
        self.drv = drv
        self.tmp = keep or tempfile.mkdtemp(prefix="msidrv.")
        self.env = dict(os.environ)
        self.env.update({"ASAN_OPTIONS": ASAN, "TZ": "UTC", "LC_ALL": "C.UTF-8", "G_SLICE": "always-malloc"})
        if env:
            self.env.update(env)
        self.p = None
        self.n = 0

    def start(self):
        self.errf = open(os.path.join(self.tmp, "stderr"), "w+b")
        self.p = subprocess.Popen([self.drv], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  env=self.env, cwd=self.tmp)

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
            except Exception:
                pass
            self.p.kill()
            self.p.wait()
            self.p.stdout.close()
            self.errf.close()
            self.p = None

    def close(self):
        self.stop()
        shutil.rmtree(self.tmp, ignore_errors=True)

    def run(self, ops):
        """ops: list of token lists. Returns the list of decoded results, or raises Crash."""
        if self.p is None or self.n > 3000:
            self.stop()
            self.start()
            self.n = 0
        self.n += 1
        script = os.path.join(self.tmp, "script")
        outp = os.path.join(self.tmp, "out")
        with open(script, "w") as f:
            for o in ops:
                f.write(" ".join(o) + "\n")
        if os.path.exists(outp):
            os.unlink(outp)
        try:
            self.p.stdin.write(("%s %s\n" % (script, outp)).encode())
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = b""
        if line != b"done\n":
            rc = self.p.wait()
            self.errf.flush()
            self.errf.seek(0)
            err = self.errf.read().decode("utf-8", "replace")
            done = []
            if os.path.exists(outp):
                done = [l for l in open(outp).read().split("\n") if l]
            self.stop()
            i = len(done)
            op = ops[i] if i < len(ops) else ["(end of script)"]
            e = Crash("process died rc=%s in op %d %s\n%s" % (rc, i, describe(op), asan_summary(err)))
            e.rc = rc
            e.index = i
            e.results = done
            raise e
        res = []
        for l in open(outp):
            l = l.strip()
            if l:
                res.append(json.loads(l))
        if len(res) != len(ops):
            raise DriverBroken("expected %d results, got %d" % (len(ops), len(res)))
        for r in res:
            if "rows" in r:
                r["rows"] = [D(row) for row in r["rows"]]
            for k in ("names", "types", "keys", "v", "row", "dcol", "critmsg", "msg"):
                if k in r and r[k] is not None:
                    r[k] = D(r[k])
        return res


def describe(op):
    out = []
    for t in op:
        if len(t) > 1 and t[0] in "xs" and re.fullmatch("[0-9a-f]*", t[1:]) and len(t) % 2:
            out.append(repr(bytes.fromhex(t[1:])[:300].decode("utf-8", "replace")))
        else:
            out.append(t)
    return " ".join(out)


def asan_summary(err):
    lines = err.split("\n")
    keep = []
    for i, l in enumerate(lines):
        if "ERROR: AddressSanitizer" in l or "runtime error" in l or "ERROR: libFuzzer" in l:
            keep += lines[i:i + 14]
            break
    if not keep:
        keep = lines[-6:]
    return "\n".join(l[:200] for l in keep)
