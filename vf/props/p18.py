"""msiextract writes exactly the package's files to where the Directory table puts them, and nothing outside of the target."""
import os, random

from hypothesis import strategies as st

from ..core import Prop, Violation, case_dir
from .. import cab, model as M, msifmt, tools, wixgen

short = st.from_regex(r"[A-Z0-9_]{1,8}(\.[A-Z]{1,3})?", fullmatch=True)
plain = st.one_of(st.from_regex(r"[a-zA-Z][a-zA-Z0-9 _-]{0,10}[a-z0-9](\.[a-z]{1,4})?", fullmatch=True), st.sampled_from(["Long Name with spaces.txt", "réadme", "a.b.c", "UPPER", "lower", "x'y", "50%", "50%s", "a&b", "(x)", "[y]", "~tmp", "日本.txt"]))
name = st.one_of(plain, st.tuples(short, plain).map("|".join))
EVIL = ["..", "../up", "../../up2", "a/../../b", "ABS", "X|..", "X|../../u", "a/b", "..:src", "X|ABS"]


def tab(n, cols, rows):
    m = M.DB()
    m.apply({"op": "create", "t": n, "cols": cols})
    t = m.t[n]
    t.rows = rows
    return t


@st.composite
def package(draw):
    evil = draw(st.integers(0, 5)) == 0
    uni = draw(st.booleans())
    fix = (lambda s: s) if uni else (lambda s: s.replace("日本", "nihon"))
    dn = st.one_of(name, name, name, st.just("."), st.tuples(name, plain).map(":".join), st.sampled_from([".:src", "SourceDir"])).map(fix)
    fn = name.map(fix)
    if evil:
        dn = st.one_of(dn, st.sampled_from(EVIL))
        fn = st.one_of(fn, fn, st.sampled_from(EVIL))
    dirs = [["TARGETDIR", draw(st.sampled_from([None, None, 0])), "SourceDir"]]
    for i in range(draw(st.integers(0, 6))):
        dirs.append([draw(st.sampled_from(["ProgramFilesFolder", "D%d" % i, "D%d" % i, "D.%d" % i])), draw(st.integers(0, len(dirs) - 1)), draw(dn)])
        if dirs[-1][0] in [d[0] for d in dirs[:-1]]:
            dirs[-1][0] = "E%d" % i
    comps = [["C%d" % i, draw(st.integers(0, len(dirs) - 1))] for i in range(draw(st.integers(1, 5)))]
    files = []
    for i in range(draw(st.integers(0, 8))):
        k = draw(st.one_of(st.just("F%d" % i), st.from_regex(r"[A-Za-z_][A-Za-z0-9_.]{0,20}", fullmatch=True)))
        if k in [f[0] for f in files]:
            k = "F%d" % i
        files.append([k, draw(st.integers(0, len(comps) - 1)), draw(fn), draw(st.integers(0, 999)), draw(st.sampled_from([0, 1, 10, 500, 500, 32768, 32769, 70000]))])
    media = []
    for i in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["emb", "emb", "emb", "ext", "ext-case", "none"]))
        media.append([kind, draw(st.sampled_from(["cab%d.cab", "Data%d.Cab", "my cab %d", "c%d", "w%d.x.y"])) % i, draw(st.sampled_from(["mszip", "store"])), draw(st.integers(1, 2))])
    return {"dirs": dirs, "comps": comps, "files": files, "media": media, "assign": [draw(st.integers(0, len(media) - 1)) for _ in files], "cp": 65001 if uni else draw(st.sampled_from([0, 1252])),
            "bad": draw(st.sampled_from([None] * 10 + ["dir", "comp", "cab", "trunc", "flip", "null", "cycle"])) if not evil else None, "evil": evil, "seed": draw(st.integers(0, 999))}


@st.composite
def cases(draw):
    pk = draw(st.lists(package(), min_size=1, max_size=draw(st.sampled_from([1, 1, 2]))))
    return {"pk": pk, "list": draw(st.integers(0, 3)) == 0, "C": draw(st.sampled_from([None, "rel", "abs", "new"])), "sub": draw(st.booleans())}


def long(s):
    return s.split(":")[0].split("|")[-1]


def paths(p, absd):
    """-> file key: path parts"""
    out = {}
    for f in p["files"]:
        d = p["comps"][f[1]][1]
        parts = [long(f[2]).replace("ABS", absd)]
        while True:
            i, par, n = p["dirs"][d]
            n = "Program Files" if i == "ProgramFilesFolder" else long(n)
            if n not in (".", "SourceDir"):
                parts.insert(0, n.replace("ABS", absd))
            if par is None or par == d:
                break
            d = par
        out[f[0]] = parts
    return out


def tree(top):
    out = {}
    for r, ds, fs in os.walk(top):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, top)] = open(p, "rb").read()
    return out


class P18(Prop):
    id = "P18"
    needs = ("full",)
    quick = 300
    thorough = 6000
    rule = ("a case is one or two packages written by an independent writer: directory trees with short, long, source and target names, components, files of up to 70000 bytes, one to three cabinets, embedded "
            "or beside the package, stored or MSZIP; some with names that lead outside, dangling references or damaged cabinets; msiextract lists or extracts them; non-trivial: two files in different directories "
            "were extracted or listed, or an outside path was tried")
    strategy = staticmethod(cases)

    def setup(self, paths, tmp):
        from ..core import Env
        env = Env()
        env.tmp, env.paths, env.p = tmp, paths, paths["full"]
        return env

    def shrink(self, case):
        if len(case["pk"]) > 1:
            for p in case["pk"]:
                yield dict(case, pk=[p])
        for n, p in enumerate(case["pk"]):
            rep = lambda q: dict(case, pk=case["pk"][:n] + [q] + case["pk"][n + 1:])
            for i in range(len(p["files"])):
                yield rep(dict(p, files=p["files"][:i] + p["files"][i + 1:], assign=p["assign"][:i] + p["assign"][i + 1:]))
            used = {c[1] for c in p["comps"]} | {d[1] for d in p["dirs"]}
            l = len(p["dirs"]) - 1
            if l and l not in used:
                yield rep(dict(p, dirs=p["dirs"][:-1]))
            if len(p["comps"]) > 1 and len(p["comps"]) - 1 not in {f[1] for f in p["files"]}:
                yield rep(dict(p, comps=p["comps"][:-1]))
            for i, c in enumerate(p["comps"]):
                if c[1]:
                    yield rep(dict(p, comps=p["comps"][:i] + [[c[0], 0]] + p["comps"][i + 1:]))
            for i, d in enumerate(p["dirs"]):
                if d[1]:
                    yield rep(dict(p, dirs=p["dirs"][:i] + [[d[0], 0, d[2]]] + p["dirs"][i + 1:]))
            for i, f in enumerate(p["files"]):
                if f[4] > 10:
                    yield rep(dict(p, files=p["files"][:i] + [f[:4] + [5]] + p["files"][i + 1:]))
            if len(p["media"]) > 1 and len(p["media"]) - 1 not in p["assign"]:
                yield rep(dict(p, media=p["media"][:-1]))

    def write(self, p, path, absd):
        sub = lambda s: s.replace("ABS", absd)
        ids = [d[0] for d in p["dirs"]]
        drows = [[d[0], None if d[1] is None else ids[d[1]], sub(d[2])] for d in p["dirs"]]
        if p["bad"] == "null":
            drows[-1][2] = None
        if p["bad"] == "cycle":
            drows[0][1] = ids[-1]
            drows[-1][1] = ids[0]
        crows = [[c[0], "{00000000-0000-0000-0000-%012d}" % i, ids[c[1]], 0, None, None] for i, c in enumerate(p["comps"])]
        if p["bad"] == "dir":
            crows[0][2] = "NoSuchDirectory"
        frows, data = [], {}
        for i, f in enumerate(p["files"]):
            data[f[0]] = wixgen.content([f[3], f[4]])
            frows.append([f[0], p["comps"][f[1]][0] if p["bad"] != "comp" else "NoSuchComponent", sub(f[2]), f[4], None, None, 0, i + 1])
        mrows, streams = [], {}
        for i, (kind, n, method, folders) in enumerate(p["media"]):
            mine = [(f[0], data[f[0]]) for f, a in zip(p["files"], p["assign"]) if a == i]
            b = cab.write(mine, folders=min(folders, max(1, len(mine))), method=method) if mine else None
            if p["bad"] == "trunc" and b:
                b = b[:len(b) - 1 - p["seed"] % (len(b) - 1)]
            if p["bad"] == "flip" and b:
                r = random.Random(p["seed"])
                b = bytearray(b)
                for _ in range(1 + p["seed"] % 3):
                    b[r.randrange(len(b))] ^= 1 << r.randrange(8)
                b = bytes(b)
            if not mine or kind == "none":
                kind = "none"
            if kind == "emb":
                if p["bad"] != "cab":
                    streams[n] = b
            elif kind != "none" and p["bad"] != "cab":
                open(os.path.join(os.path.dirname(path), n if kind == "ext" else n.swapcase()), "wb").write(b)
            mrows.append([i + 1, len(p["files"]), None, None if kind == "none" else ("#" if kind == "emb" else "") + n, None, None])
        w = msifmt.Writer(codepage=p["cp"])
        tabs = [tab("Directory", [["Directory", "s", 72, False, False, True], ["Directory_Parent", "s", 72, True, False, False], ["DefaultDir", "s", 255, False, True, False]], drows),
                tab("Component", [["Component", "s", 72, False, False, True], ["ComponentId", "s", 38, True, False, False], ["Directory_", "s", 72, False, False, False], ["Attributes", "i2", 0, False, False, False],
                                  ["Condition", "s", 255, True, False, False], ["KeyPath", "s", 72, True, False, False]], crows),
                tab("File", [["File", "s", 72, False, False, True], ["Component_", "s", 72, False, False, False], ["FileName", "s", 255, False, True, False], ["FileSize", "i4", 0, False, False, False],
                             ["Version", "s", 72, True, False, False], ["Language", "s", 20, True, False, False], ["Attributes", "i2", 0, True, False, False], ["Sequence", "i2", 0, False, False, False]], frows),
                tab("Media", [["DiskId", "i2", 0, False, False, True], ["LastSequence", "i4", 0, False, False, False], ["DiskPrompt", "s", 64, True, True, False], ["Cabinet", "s", 255, True, False, False],
                              ["VolumeLabel", "s", 32, True, False, False], ["Source", "s", 72, True, False, False]], mrows)]
        open(path, "wb").write(w.build(tabs, streams))
        return data

    def run(self, case, env):
        top = os.path.realpath(case_dir(env))
        absd = os.path.join(top, "abs")
        target = os.path.join(top, "w", "x", "y", "target")
        work = os.path.join(top, "w", "x", "y")
        os.makedirs(work)
        args, want, loose, unsafe, failing = [], {}, False, False, False
        lists = []
        for n, p in enumerate(case["pk"]):
            d = os.path.join(top, "p%d" % n)
            os.makedirs(d)
            path = os.path.join(d, "a.msi")
            data = self.write(p, path, absd)
            args.append(path if n or not case["sub"] else os.path.relpath(path, work))
            failing |= p["bad"] in ("dir", "comp") and bool(p["files"]) or p["bad"] == "dir"
            if p["bad"] in ("cab", "trunc", "flip", "null", "cycle"):
                loose = True
            for f, parts in paths(p, absd).items():
                j = "/".join(parts)
                if any(x in ("..", ".") for x in j.split("/")) or any("/" in x for x in parts) or absd in j:
                    unsafe = True
                i = next(i for i, x in enumerate(p["files"]) if x[0] == f)
                lists.append(j)
                if p["media"][p["assign"][i]][0] == "none":
                    continue
                if j in want or any(k.startswith(j + "/") or j.startswith(k + "/") for k in want):
                    loose = True
                want[j] = data[f]
        before = tree(top)
        cmd = [env.p.msiextract]
        if case["C"]:
            target = os.path.join(target, "deep") if case["C"] == "new" else target
            if case["C"] != "new":
                os.makedirs(target)
            cmd += ["-C", "target" if case["C"] == "rel" else target]
        else:
            os.makedirs(target)
            args = [os.path.abspath(os.path.join(work, a)) for a in args]
        if case["list"]:
            cmd.append("-l")
        r = tools.run(cmd + args, cwd=work if case["C"] else target)
        after = tree(top)
        rel = os.path.relpath(target, top)
        new = {k: v for k, v in after.items() if before.get(k) != v}
        lost = [k for k in before if k not in after]
        outside = [k for k in new if not k.startswith(rel + "/")]
        if outside or lost:
            raise Violation("msiextract wrote outside of the target directory: %r %r" % (outside, lost))
        inside = {os.path.relpath(k, rel): v for k, v in new.items()}
        labels = [l for l, c in (("list", case["list"]), ("unsafe names", unsafe), ("damaged", failing or loose), ("two packages", len(case["pk"]) > 1)) if c]
        if failing and not unsafe:
            if r.rc == 0:
                raise Violation("a dangling reference goes unnoticed: %r" % r.out)
            return True, labels
        if unsafe:
            return True, labels
        out = r.out.decode("utf-8", "replace").splitlines()
        if case["list"]:
            if any(p["bad"] in ("null", "cycle") for p in case["pk"]):
                return True, labels
            if r.rc != 0:
                raise Violation("msiextract -l fails (%d): %s" % (r.rc, r.err.decode("utf-8", "replace")[-400:]))
            if sorted(out) != sorted(lists):
                raise Violation("listed are %r, not %r" % (sorted(out), sorted(lists)))
            if inside:
                raise Violation("listing writes files: %r" % sorted(inside))
            return len(lists) > 1, labels
        if loose:
            if r.rc == 0 and any(p["bad"] == "cab" and any(p["media"][a][0] != "none" for a in p["assign"]) for p in case["pk"]):
                raise Violation("a missing cabinet goes unnoticed")
            return False, labels
        if r.rc != 0:
            raise Violation("msiextract fails (%d): %s" % (r.rc, r.err.decode("utf-8", "replace")[-400:]))
        if inside != want:
            raise Violation("extracted are %r, not %r" % ({k: len(v) for k, v in inside.items() if want.get(k) != v}, {k: len(v) for k, v in want.items() if inside.get(k) != v}))
        if sorted(out) != sorted(want):
            raise Violation("printed are %r, not %r" % (sorted(out), sorted(want)))
        return len({os.path.dirname(k) for k in want}) > 1, labels


PROP = P18
