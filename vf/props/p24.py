"""wixl-heat writes a fragment that wixl turns into a package with exactly the listed files at their places."""
import hashlib, os, subprocess
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from ..core import Prop, Violation, case_dir
from .. import cab, tools, wixgen, wixref

NS = "{%s}" % wixref.NS
seg = st.one_of(st.from_regex(r"[a-zA-Z0-9_.-]{0,6}[a-zA-Z0-9]", fullmatch=True), st.sampled_from(["a", "b", "a b", "réadme.txt", "x&y", "<z>", "q\"q", "o'n", "$", "$x", "$$", "%s", "a;b", "[x]", "日本", "a--b", "-x"]))


@st.composite
def cases(draw):
    dirs = [""]
    # few names, so that directories of the same name are at many places
    few = draw(st.booleans())
    part = st.sampled_from(["a", "b", "c"]) if few else seg
    for i in range(draw(st.integers(0, 12 if few else 5))):
        d = draw(st.sampled_from(dirs))
        if d.count("/") < 4:
            n = (d + "/" if d else "") + draw(part)
            if n not in dirs:
                dirs.append(n)
    files = []
    for i in range(draw(st.integers(0, 8))):
        d = draw(st.sampled_from(dirs))
        n = (d + "/" if d else "") + draw(st.sampled_from(["a", "b", "x", "y"]) if few else seg)
        if n not in files and n not in dirs:
            files.append(n)
    lines = [("f", f) for f in files]
    if draw(st.integers(0, 2)) == 0:
        lines += [("d", d) for d in dirs if d]
    order = draw(st.sampled_from(["sorted", "sorted", "any"]))
    lines = sorted(lines, key=lambda x: x[1]) if order == "sorted" else draw(st.permutations(lines))
    ex = draw(st.lists(st.sampled_from(files + dirs + [x[:-1] for x in files + dirs] + ["zz"]), max_size=2)) if files and draw(st.booleans()) else []
    return {"lines": [list(l) for l in lines], "exclude": [e for e in ex if e], "cg": draw(st.sampled_from([None, "CG", "Group.1"])), "dr": draw(st.sampled_from([None, "INSTALLDIR"])),
            "var": draw(st.sampled_from([None, "var.Src", "var.Src"])), "win64": draw(st.integers(0, 3)) == 0, "slash": True, "foreign": draw(st.booleans()), "crlf": False}


class P24(Prop):
    id = "P24"
    needs = ("full",)
    quick = 200
    thorough = 4000
    rule = ("a case is a tree of files with names of all kinds of characters, a listing of it in some order with or without its directories, exclusions and options; the fragment is parsed, its paths compared, and "
            "built with wixl, whose package is compared file by file; non-trivial: two files in different directories are listed")
    strategy = staticmethod(cases)

    def setup(self, paths, tmp):
        from ..core import Env
        env = Env()
        env.tmp, env.paths, env.p = tmp, paths, paths["full"]
        return env

    def shrink(self, case):
        for i in range(len(case["lines"])):
            yield dict(case, lines=case["lines"][:i] + case["lines"][i + 1:])
        for k, v in (("exclude", []), ("cg", None), ("dr", None), ("win64", False), ("foreign", False)):
            if case[k] != v:
                yield dict(case, **{k: v})
        for i, (k, p) in enumerate(case["lines"]):
            if "/" in p:
                yield dict(case, lines=case["lines"][:i] + [[k, os.path.basename(p)]] + case["lines"][i + 1:])

    def run(self, case, env):
        d = case_dir(env)
        top = os.path.join(d, "src")
        os.makedirs(top)
        data = {}
        lines = []
        dirs = {os.path.dirname(p) for k, p in case["lines"]} | {p for k, p in case["lines"] if k == "d"}
        for k, p in case["lines"]:
            if k == "f" and (p in dirs or any(x.startswith(p + "/") for x in dirs)):
                continue
            full = os.path.join(top, p)
            if k == "d":
                os.makedirs(full, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(full), exist_ok=True)
                data[p] = ("content of " + p).encode() * 3
                open(full, "wb").write(data[p])
            lines.append([k, p])
        prefix = top + ("/" if case["slash"] else "")
        listing = "".join(top + "/" + p + "\n" for k, p in lines)
        if case["foreign"]:
            listing = "/somewhere/else\n" + listing + top[:-1] + "\n"
        cmd = [env.p.heat, "-p", prefix]
        for e in case["exclude"]:
            cmd += ["-x", ("" if case["slash"] else "/") + e]
        if case["cg"]:
            cmd += ["--component-group", case["cg"]]
        if case["dr"]:
            cmd += ["--directory-ref", case["dr"]]
        if case["var"]:
            cmd += ["--var", case["var"]]
        if case["win64"]:
            cmd += ["--win64"]
        r = tools.run(cmd, cwd=d, stdin=listing.encode())
        if r.rc != 0 or b"CRITICAL" in r.err or b"WARNING" in r.err:
            raise Violation("wixl-heat fails (%d): %s" % (r.rc, r.err.decode("utf-8", "replace")[-500:]))
        try:
            root = ET.fromstring(r.out)
        except ET.ParseError as e:
            raise Violation("the output is not well-formed: %s\n%s" % (e, r.out.decode("utf-8", "replace")[:1500]))
        excl = lambda p: any(p.startswith(e) for e in case["exclude"])
        want = {p: v for p, v in data.items() if not excl(p)}
        wdirs = [p for k, p in lines if k == "d" and not excl(p)]
        # structure
        got, gdirs, comps, ids = {}, [], [], []
        refs = root.findall(NS + "Fragment/" + NS + "DirectoryRef")
        if len(refs) != 1 or refs[0].get("Id") != (case["dr"] or "TARGETDIR"):
            raise Violation("directory references %r" % [x.get("Id") for x in refs])

        def walk(el, path):
            for k in el:
                if k.tag == NS + "Directory":
                    n = k.get("Name")
                    ids.append(k.get("Id"))
                    q = path if n in (".", None) else path + [n]
                    gdirs.append("/".join(q).replace("$$", "$"))
                    walk(k, q)
                elif k.tag == NS + "Component":
                    comps.append(k.get("Id"))
                    if k.get("Guid") != "*" or (k.get("Win64") is not None) != case["win64"]:
                        raise Violation("component %r" % k.attrib)
                    fs = k.findall(NS + "File")
                    if len(fs) != 1 or fs[0].get("KeyPath") != "yes":
                        raise Violation("component %r" % ET.tostring(k))
                    got["/".join(path + [os.path.basename(fs[0].get("Source"))])] = fs[0].get("Source")
                    ids.append(fs[0].get("Id"))
                else:
                    raise Violation("unexpected %s" % k.tag)
        walk(refs[0], [])
        inner = {"/".join(q.split("/")[:i]) for q in list(want) + [w + "/" for w in wdirs] for i in range(1, q.count("/") + 1)}
        if {p for p in gdirs if p} != inner:
            raise Violation("directories %r, expected %r" % (sorted(set(gdirs)), sorted(inner)))
        groups = root.findall(NS + "Fragment/" + NS + "ComponentGroup")
        if case["cg"]:
            if len(groups) != 1 or groups[0].get("Id") != case["cg"] or [k.get("Id") for k in groups[0]] != comps:
                raise Violation("component group does not list the components")
        elif groups:
            raise Violation("unexpected component group")
        if len(set(ids + comps)) != len(ids + comps):
            raise Violation("identifiers are not unique")
        if len(comps) != len(want):
            raise Violation("%d components for %d files" % (len(comps), len(want)))
        # identifiers and so the GUIDs are the same when run again
        r2 = tools.run(cmd, cwd=d, stdin=listing.encode())
        again = [c.get("Id") for c in ET.fromstring(r2.out).iter(NS + "Component")]
        if again != comps:
            raise Violation("component identifiers differ between two runs")
        # build
        if case["cg"] and case["var"] == "var.Src" and "日".encode() not in r.out.split(b"<!--")[0]:
            self.build(case, env, d, top, r.out, want)
        return len({os.path.dirname(p) for p in want}) > 1, ["win64" if case["win64"] else "default", "built" if case["cg"] and case["var"] else "parsed", "exclude" if case["exclude"] else "all",
                                                            "special" if any(c in p for p in want for c in "$&<\"") else "plain"]

    def build(self, case, env, d, top, frag, want):
        open(os.path.join(d, "frag.wxs"), "wb").write(frag)
        dr = case["dr"] or "TARGETDIR"
        tree = ["Directory", {"Id": "TARGETDIR", "Name": "SourceDir"}, [["Directory", {"Id": dr, "Name": "inst"}, []]] if case["dr"] else []]
        doc = ["Wix", {}, [["Product", {"Name": "n", "Id": "*", "UpgradeCode": "12345678-1234-1234-1234-123456789012", "Language": "1033", "Version": "1.0", "Manufacturer": "m"},
                            [["Package", {}, []], ["Media", {"Id": "1", "Cabinet": "c.cab", "EmbedCab": "yes"}, []], tree, ["Feature", {"Id": "F"}, [["ComponentGroupRef", {"Id": case["cg"]}, []]]]]]]]
        open(os.path.join(d, "main.wxs"), "w").write(wixref.xml(doc))
        r = tools.run([env.p.wixl, "-D", "Src=" + top, "-D", "Win64=yes", "-o", "o.msi", "main.wxs", "frag.wxs"], cwd=d)
        if r.rc != 0:
            raise Violation("wixl refuses the fragment: %s\n%s" % (r.err.decode("utf-8", "replace")[-500:], frag.decode("utf-8", "replace")[:1500]))
        f = wixgen.parse(os.path.join(d, "o.msi"))
        dirs = {x["Directory"]: x for x in wixgen.actual_rows(f, "Directory")}
        comp = {x["Component"]: x for x in wixgen.actual_rows(f, "Component")}
        ents = {e.name: e.data for e in cab.read(f.streams["c.cab"])} if "c.cab" in f.streams else {}
        got = {}
        for x in wixgen.actual_rows(f, "File"):
            c = comp[x["Component_"]]
            parts = [x["FileName"]]
            i = c["Directory_"]
            while i != dr:
                n = dirs[i]["DefaultDir"]
                if n != ".":
                    parts.insert(0, n)
                i = dirs[i]["Directory_Parent"]
            got["/".join(parts)] = ents.get(x["File"])
            if bool(c["Attributes"] & 256) != case["win64"]:
                raise Violation("component of %s has attributes %d" % (x["FileName"], c["Attributes"]))
        if got != want:
            raise Violation("the package has %r, not %r" % (got, want))


PROP = P24
