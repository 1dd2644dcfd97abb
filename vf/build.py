"""Builds /repo's current working tree, outside /repo, under /verif/.build (git-ignored)."""
import fcntl, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
ENVPATH = "/opt/msitools-env/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"


class BuildError(Exception):
    pass


def _env(**kw):
    e = dict(os.environ)
    e["PATH"] = ENVPATH
    e["LC_ALL"] = "C.UTF-8"
    e["CC"] = kw.pop("CC", "gcc")
    e["CXX"] = "g++"
    e["VALAC"] = "valac"
    # g-ir-scanner runs an instrumented helper: its leaks are not our subject
    e["ASAN_OPTIONS"] = "detect_leaks=0"
    for k in ("DESTDIR", "MAKEFLAGS", "CFLAGS", "LDFLAGS", "LD_PRELOAD"):
        e.pop(k, None)
    e.update(kw)
    return e


def _run(cmd, env, log):
    with open(log, "ab") as f:
        r = subprocess.run(cmd, env=env, stdout=f, stderr=subprocess.STDOUT)
    if r.returncode:
        tail = open(log, errors="replace").read()[-3000:]
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), tail))


def meson_build(name, args, targets=(), env=None):
    """Incremental meson build of REPO in ROOT/name."""
    os.makedirs(ROOT, exist_ok=True)
    d = os.path.join(ROOT, name)
    log = os.path.join(ROOT, name + ".log")
    with open(os.path.join(ROOT, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        open(log, "w").close()
        env = env or _env()
        for attempt in (0, 1):
            try:
                if not os.path.exists(os.path.join(d, "build.ninja")):
                    shutil.rmtree(d, ignore_errors=True)
                    _run(["meson", "setup", d, REPO, "--buildtype=debugoptimized", "--wrap-mode=nodownload",
                          "-Dwerror=false", "--native-file", "/opt/msitools-env/native.ini"] + list(args), env, log)
                vapi = os.path.join(d, "libmsi/libmsi-1.0.vapi")
                meta = os.path.join(REPO, "libmsi/Libmsi-1.0.metadata")
                if os.path.exists(vapi) and os.path.getmtime(meta) > os.path.getmtime(vapi):
                    os.unlink(vapi)
                _run(["ninja", "-C", d] + list(targets), env, log)
                return d
            except BuildError:
                if attempt:
                    raise
                shutil.rmtree(d, ignore_errors=True)     # a stale directory: once more from scratch


def _cflags(pkgs):
    return subprocess.run(["pkg-config", "--cflags"] + pkgs, stdout=subprocess.PIPE, check=True, text=True).stdout.split()


def _libs(pkgs):
    return subprocess.run(["pkg-config", "--libs"] + pkgs, stdout=subprocess.PIPE, check=True, text=True).stdout.split()


def _cc(out, cmd):
    log = out + ".log"
    open(log, "w").close()
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = "%s.%d" % (out, os.getpid())
    _run(cmd + ["-o", tmp], _env(), log)
    os.replace(tmp, out)
    return out


def lib():
    """ASan build of libmsi, msibuild, msiinfo, msidump, msidiff (no Vala) plus msidrv."""
    d = meson_build("lib", ["-Db_sanitize=address", "-Db_lundef=false", "-Dintrospection=false"])
    drv = os.path.join(ROOT, "msidrv")
    src = os.path.join(VERIF, "harness/msidrv.c")
    _cc(drv, ["gcc", "-g", "-O1", "-fsanitize=address", "-I" + REPO + "/include", "-I" + d + "/include"]
        + _cflags(["gio-2.0"]) + [src, "-L" + d + "/libmsi", "-lmsi-1.0", "-Wl,-rpath," + d + "/libmsi"] + _libs(["gio-2.0"]))
    return Paths(d, drv)


def full():
    """ASan build of everything, the Vala programs included (slower)."""
    d = meson_build("full", ["-Db_sanitize=address", "-Db_lundef=false"])
    drv = os.path.join(ROOT, "msidrv-full")
    src = os.path.join(VERIF, "harness/msidrv.c")
    _cc(drv, ["gcc", "-g", "-O1", "-fsanitize=address", "-I" + REPO + "/include", "-I" + d + "/include"]
        + _cflags(["gio-2.0"]) + [src, "-L" + d + "/libmsi", "-lmsi-1.0", "-Wl,-rpath," + d + "/libmsi"] + _libs(["gio-2.0"]))
    return Paths(d, drv)


def shim(name):
    src = os.path.join(VERIF, "harness", name + ".c")
    return _cc(os.path.join(ROOT, name + ".so"), ["gcc", "-g", "-O1", "-shared", "-fPIC", src, "-ldl"])


def plain():
    """libmsi without a sanitizer (for LD_PRELOAD fault injection) plus msidrv."""
    d = meson_build("plain", ["-Dintrospection=false"])
    drv = os.path.join(ROOT, "msidrv-plain")
    src = os.path.join(VERIF, "harness/msidrv.c")
    _cc(drv, ["gcc", "-g", "-O1", "-I" + REPO + "/include", "-I" + d + "/include"]
        + _cflags(["gio-2.0"]) + [src, "-L" + d + "/libmsi", "-lmsi-1.0", "-Wl,-rpath," + d + "/libmsi"] + _libs(["gio-2.0"]))
    return Paths(d, drv)


def fuzzer(name):
    """clang + libFuzzer build of libmsi and one fuzz target."""
    e = _env(CC="clang")
    d = meson_build("fuzz", ["-Dintrospection=false", "-Db_sanitize=address", "-Db_lundef=false",
                             "-Dc_args=-fsanitize=fuzzer-no-link"], env=e)
    src = os.path.join(VERIF, "harness", name + ".c")
    return _cc(os.path.join(ROOT, name),
               ["clang", "-g", "-O1", "-fsanitize=fuzzer,address", "-I" + REPO + "/include", "-I" + REPO, "-I" + os.path.join(VERIF, "harness"),
                "-I" + d + "/include", "-I" + d] + _cflags(["gio-2.0", "libgsf-1"])
               + [src, "-L" + d + "/libmsi", "-lmsi-1.0", "-Wl,-rpath," + d + "/libmsi"] + _libs(["gio-2.0", "libgsf-1"]))


def persist(name):
    """The fuzz target as a process fed by its standard input, on the sanitized library."""
    d = lib().dir
    src = os.path.join(VERIF, "harness", name + ".c")
    return _cc(os.path.join(ROOT, name.replace("fuzz", "persist")), ["gcc", "-DPERSIST", "-g", "-O1", "-fsanitize=address", "-I" + REPO + "/include", "-I" + d + "/include", "-I" + os.path.join(VERIF, "harness")]
               + _cflags(["gio-2.0", "libgsf-1"]) + [src, "-L" + d + "/libmsi", "-lmsi-1.0", "-Wl,-rpath," + d + "/libmsi"] + _libs(["gio-2.0", "libgsf-1"]))


def fuzz_msi():
    return fuzzer("fuzz_msi")


def persist_msi():
    return persist("fuzz_msi")


def fuzz_sql():
    return fuzzer("fuzz_sql")


def persist_sql():
    return persist("fuzz_sql")


class Paths:
    def __init__(self, d, drv):
        self.dir = d
        self.drv = drv
        self.msibuild = d + "/tools/msibuild"
        self.msiinfo = d + "/tools/msiinfo"
        self.msidump = d + "/tools/msidump"
        self.msidiff = d + "/tools/msidiff"
        self.msiextract = d + "/tools/msiextract"
        self.wixl = d + "/tools/wixl/wixl"
        self.heat = d + "/tools/wixl/wixl-heat"
