"""A tool that cannot write all of its output says so; one that can is not disturbed by the limit."""
import os, resource, shutil, signal, subprocess

from hypothesis import strategies as st

from ..core import Prop, Violation, Env, case_dir
from ..driver import Driver, asan_summary
from .. import hist, tools, wixgen
from . import p18, p24, p26

P18, P24 = p18.PROP(), p24.PROP()


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["info", "info", "info", "info", "dump", "dump", "extract", "extract", "heat", "wixl", "pre", "build"]))
    c = {"kind": kind, "at": draw(st.one_of(st.integers(0, 1000), st.sampled_from([0, 999, 1000, 1001, 1000000]))), "full": draw(st.integers(0, 5)) == 0}
    if kind in ("info", "dump", "build"):
        c["ops"] = draw(p26.databases())
        c["streams"] = {n: draw(p26.BLOB).hex() for n in draw(st.lists(p26.SN, max_size=3, unique=True))}
    if kind == "info":
        c["cmd"] = draw(st.sampled_from(["tables", "streams", "suminfo", "export", "export", "export", "exports", "extract", "extract", "forcecp", "exportsi"]))
        c["n"] = draw(st.integers(0, 9))
        c["way"] = draw(st.sampled_from([None, None, None, "file", "proc", "link"]))
    elif kind == "dump":
        c["flags"] = draw(st.sampled_from([[], ["-t"], ["-s"], ["-t", "-s"]]))
    elif kind == "extract":
        p = draw(p18.package().filter(lambda p: not p["evil"] and not p["bad"]))
        c["pk"], c["list"] = p, draw(st.booleans())
    elif kind == "heat":
        c["heat"] = draw(p24.cases())
    elif kind in ("wixl", "pre"):
        c["doc"] = draw(wixgen.document(focus=tuple(draw(st.sets(st.sampled_from(["registry", "shortcut", "service"]), max_size=1))), files_max=5000))
    return c


def outputs(top):
    return {k: v for k, v in p26.files(top).items()}


class P33(Prop):
    id = "P33"
    needs = ("lib", "full")
    quick = 250
    thorough = 5000
    rule = ("a case is a generated database, package, list of files or document and a tool that reads it; the tool runs once freely and once with a limit on the size of every file it writes, its standard output included, "
            "or with a full device as standard output; non-trivial: the limit cuts some output")

    def strategy(self):
        return cases()

    def setup(self, paths, tmp):
        env = Env()
        env.tmp, env.paths, env.p = tmp, paths, paths["full"]
        env.drv = Driver(paths["lib"].drv, keep=tmp)
        return env

    def shrink(self, case):
        if case.get("streams"):
            for n in case["streams"]:
                yield dict(case, streams={k: v for k, v in case["streams"].items() if k != n})
        if case.get("ops"):
            for i in range(len(case["ops"]) - 1, -1, -1):
                yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])

    def limited(self, cmd, cwd, limit, stdout, stdin, env):
        def pre():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_CPU, (40, 41))
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        e = {k: v for k, v in os.environ.items() if not (k.startswith("G_") or k in ("LD_PRELOAD", "SOURCE_DATE_EPOCH"))}
        e.update(tools.ENV)
        e.update(env or {})
        e["SOURCE_DATE_EPOCH"] = "1000000000"
        e["PWD"] = cwd
        with open(stdout, "wb") as o:
            p = subprocess.run(cmd, cwd=cwd, input=stdin or b"", stdout=o, stderr=subprocess.PIPE, env=e, preexec_fn=pre)
        err = p.stderr.decode("utf-8", "replace")
        if p.returncode < 0 or p.returncode == 86 or 128 < p.returncode < 160:
            raise Violation("%s died (%d) where it cannot write more than %s bytes\n%s" % (" ".join(map(str, cmd))[:400], p.returncode, limit, asan_summary(err)))
        return p.returncode, err

    def run(self, case, env):
        d = os.path.realpath(case_dir(env))
        k = case["kind"]
        work, out = os.path.join(d, "in"), os.path.join(d, "out")
        os.makedirs(work)
        stdin, envv, obstacle, fixed = None, None, None, None
        msi = os.path.join(work, "a.msi")
        if k in ("info", "dump", "build"):
            m = p26.build(env, case["ops"], case["streams"], msi)
            names = sorted(m.t)
        if k == "info":
            c = case["cmd"]
            cmd = [env.p.msiinfo]
            if c in ("export", "exports"):
                if not names:
                    return False, ["no table"]
                n = names[case["n"] % len(names)]
                cmd += ["export"] + (["-s"] if c == "exports" else []) + [msi, n]
                if case["way"] and c == "export" and "/" not in n and n not in (".", "..") and "%" not in n:
                    obstacle = (case["way"], n, any(col.kind == "b" and any(r[i] is not None for r in m.t[n].rows) for i, col in enumerate(m.t[n].cols)))
            elif c == "extract":
                if not case["streams"]:
                    return False, ["no stream"]
                cmd += ["extract", msi, sorted(case["streams"])[case["n"] % len(case["streams"])]]
            elif c in ("forcecp", "exportsi"):
                cmd += ["export", msi, "_ForceCodepage" if c == "forcecp" else "_SummaryInformation"]
            else:
                cmd += [c, msi]
        elif k == "dump":
            envv = p26.path_env(env)
            cmd = ["msidump"] + case["flags"] + [msi]
            cmd[0] = os.path.join(p26.scripts(env), "msidump")
        elif k == "build":
            cmd = [env.p.msibuild, "new.msi", "-s", "Subject", "Author", "-q", "CREATE TABLE `T` (`k` CHAR(72) NOT NULL, `v` LONGCHAR PRIMARY KEY `k`)"]
            fixed = "x" * (case["at"] % 1003 * 7)
            cmd += ["-q", "INSERT INTO `T` (`k`, `v`) VALUES ('a', '%s')" % fixed] if fixed else []
            for n, b in case["streams"].items():
                f = os.path.join(work, "s%d" % len(cmd))
                open(f, "wb").write(bytes.fromhex(b))
                if not n.startswith("-"):
                    cmd += ["-a", n, f]
        elif k == "extract":
            P18.write(case["pk"], msi, os.path.join(d, "abs"))
            cmd = [env.p.msiextract] + (["-l"] if case["list"] else []) + [msi]
        elif k == "heat":
            h = case["heat"]
            cmd = [env.p.heat, "-p", "/src/"] + (["--component-group", h["cg"]] if h["cg"] else []) + (["--var", h["var"]] if h["var"] else [])
            stdin = "".join("/src/" + p + "\n" for _, p in h["lines"]).encode()
        else:
            ins, look = wixgen.write_case(work, case["doc"])
            cmd = [env.p.wixl] + (["-E"] if k == "pre" else ["-o", os.path.join(out, "o.msi")]) + [os.path.join(work, i) for i in ins]
        what = " ".join(map(str, cmd)).replace(d, "")[:400]
        cwd = work if k in ("wixl", "pre") else out

        # freely
        os.makedirs(out)
        so = os.path.join(d, "stdout")
        rc, err = self.limited(cmd, cwd, None, so, stdin, envv)
        if rc:
            return False, ["fails anyway " + k]
        stdout = open(so, "rb").read()
        want = outputs(out)
        size = max([len(stdout)] + [len(v) for v in want.values()])
        shutil.rmtree(out)
        os.makedirs(out)
        if obstacle and obstacle[2]:
            way, n, _ = obstacle
            if way == "file":
                open(os.path.join(out, n), "w").close()
            elif way == "link":
                os.symlink("nowhere/at/all", os.path.join(out, n))
            elif way == "proc":
                cwd = "/proc"
            rc, err = self.limited(cmd, cwd, None, so, stdin, envv)
            if rc == 0 or not err:
                raise Violation("%s ends with status %d although it cannot write the files of the table (%s)" % (what, rc, way))
            return True, ["obstacle " + way]
        if case["full"]:
            if not stdout:
                return False, ["no output"]
            rc, err = self.limited(cmd, cwd, None, "/dev/full", stdin, envv)
            if rc == 0 or not err:
                raise Violation("%s ends with status %d %s, but all of its %d bytes of output are lost on a full device" % (what, rc, "and a message" if err else "and no message", len(stdout)))
            return True, [k + " full"]
        if not size:
            return False, ["no output"]
        limit = case["at"] * size // 1000
        rc, err = self.limited(cmd, cwd, limit, so, stdin, envv)
        got = open(so, "rb").read()
        files = outputs(out)
        labels = [k + (" " + case["cmd"] if k == "info" else "")]
        if limit < size:
            if rc == 0 or not err:
                raise Violation("%s ends with status %d %s, but of its output %s is cut at %d bytes" % (
                    what, rc, "and a message" if err else "and no message", [n for n, v in [("stdout", stdout)] + sorted(want.items()) if len(v) > limit], limit))
            return True, labels
        if k == "extract":
            # one file replaced another one, which may be larger
            to = ["/".join(x) for x in p18.paths(case["pk"], "").values()]
            if any(a == b[:len(a)] and b[len(a):len(a) + 1] in ("", "/") for i, a in enumerate(to) for j, b in enumerate(to) if i != j):
                return False, ["same place"]
        # temporary files may be larger than what results
        if limit >= 4 * size + 65536 or k not in ("wixl", "build"):
            # some of the tools draw random names
            if rc or k in ("info", "dump", "extract", "pre") and (got != stdout or files != want) or files.keys() != want.keys():
                raise Violation("%s is disturbed by a limit of %d bytes which its output of at most %d does not reach: status %d\n%s" % (what, limit, size, rc, err[-500:]))
        return False, ["below " + k]


PROP = P33
