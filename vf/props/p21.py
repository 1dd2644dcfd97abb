"""Building is repeatable: the same input gives the same package, and component GUIDs stay the same when other parts change."""
import copy, os, random

from hypothesis import strategies as st

from ..core import Violation, case_dir
from .. import cab, msifmt, tools, wixgen, wixprop, wixref


def elements(node, tag):
    if isinstance(node, str) or node[0].startswith("#"):
        return
    if node[0] == tag:
        yield node
    for k in node[2] if len(node) > 2 else []:
        yield from elements(k, tag)


def variant(case, seed):
    """The document with changes that concern no existing component: -> case, whether a component was added"""
    r = random.Random(seed)
    docs = copy.deepcopy(case["docs"])
    files = dict(case["files"])
    prod = next(p for d in docs for p in elements(d, "Product"))
    if r.random() < 0.7:
        prod[1].update(Name="Other name", Version="7.8.9")
    if r.random() < 0.5:
        prod[1]["Manufacturer"] = "else"
    if r.random() < 0.7:
        r.shuffle(prod[2])
    if r.random() < 0.5:
        for f in [f for d in docs for f in elements(d, "Feature")]:
            f[1]["Title"] = "t%d" % r.randrange(9)
    if r.random() < 0.7:
        dirs = [x for d in docs for x in elements(d, "Directory")]
        x = r.choice(dirs)
        x[2].insert(r.randrange(len(x[2]) + 1), ["Component", {"Id": "zzNewOne", "Guid": "*"}, [["File", {"Id": "zzNewFile", "Source": "zznew.bin"}, []]]])
        files["zznew.bin"] = [5, 77]
        f = next(f for d in docs for f in elements(d, "Feature"))
        f[2].append(["ComponentRef", {"Id": "zzNewOne"}, []])
        if not any(True for d in docs for _ in elements(d, "MediaTemplate")) and not any(m[1]["Id"] == "1" for d in docs for m in elements(d, "Media")):
            for e in [e for d in docs for e in elements(d, "File") if e[1]["Id"] == "zzNewFile"]:
                e[1]["DiskId"] = next(m for d in docs for m in elements(d, "Media"))[1]["Id"]
    if len(docs) > 1 and r.random() < 0.5:
        docs = docs[:1] + docs[:0:-1]
    if r.random() < 0.5:
        for n in list(files):
            files[n] = [files[n][0] + 1, files[n][1] + 3]
    return dict(case, docs=docs, files=files)


class P21(wixprop.WixProp):
    id = "P21"
    quick = 80
    thorough = 1500
    rule = ("a case is a generated WiX document and a seed for changes to it; it is built twice in different directories and environments, then with changes that concern no existing component; "
            "non-trivial: it has a component whose GUID is generated")

    def strategy(self):
        return st.tuples(st.sampled_from([("key",), ("key", "registry"), ("key", "media", "feature"), ("registry", "service", "ini", "shortcut"), ("sequence", "action")]).flatmap(
            lambda f: wixgen.document(focus=f)), st.integers(0, 10**6), st.integers(0, 3000)).map(lambda t: dict(t[0], vseed=t[1], pad=t[2]))

    def once(self, case, env, d, envv):
        ins, look = wixgen.write_case(d, case)
        for n in case["files"]:
            os.utime(os.path.join(d, n), (1600000000, 1600000000))
        cmd = [env.p.wixl, "-o", "out.msi"] + (["-a", case["arch"]] if case.get("arch") else []) + ins
        return tools.run(cmd, cwd=d, env=envv), look

    def run(self, case, env):
        top = case_dir(env)
        dirs = [os.path.join(top, "a"), os.path.join(top, "a much longer name of a directory"), os.path.join(top, "v")]
        for d in dirs:
            os.makedirs(d)
        r, look = self.once(case, env, dirs[0], {})
        if r.rc != 0:
            return False, ["rejected"]
        r2, _ = self.once(case, env, dirs[1], {"VF_PADDING": "x" * case["pad"], "LC_ALL": "C", "TZ": "Asia/Tokyo"})
        if r2.rc != 0:
            raise Violation("the same input is built once and refused then: %s" % r2.err.decode("utf-8", "replace")[-400:])
        a, b = (wixgen.parse(os.path.join(d, "out.msi")) for d in dirs[:2])
        self.same(case, a, b)
        ids = {x["Component"]: x["ComponentId"] for x in wixgen.actual_rows(a, "Component")}
        gen = [e[1]["Id"] for d in case["docs"] for e in elements(d, "Component") if e[1].get("Guid") == "*"]
        vals = [ids.get(i) for i in gen]
        if len(set(vals)) != len(vals) or not all(wixgen.is_guid(v) for v in vals):
            raise Violation("generated GUIDs are not distinct: %r" % {i: ids.get(i) for i in gen})
        v = variant(case, case["vseed"])
        r3, _ = self.once(v, env, dirs[2], {})
        labels = ["variant refused"]
        if r3.rc == 0:
            c = wixgen.parse(os.path.join(dirs[2], "out.msi"))
            ids3 = {x["Component"]: x["ComponentId"] for x in wixgen.actual_rows(c, "Component")}
            for i, g in ids.items():
                if ids3.get(i) != g:
                    raise Violation("the GUID of component %s changed from %s to %s by a change elsewhere" % (i, g, ids3.get(i)))
            labels = ["variant"]
        return bool(gen), labels + ["%d generated GUIDs" % min(len(gen), 4)]

    def same(self, case, a, b):
        prod = next(p for d in case["docs"] for p in elements(d, "Product"))
        if set(a.tables) != set(b.tables):
            raise Violation("tables differ: %r" % (set(a.tables) ^ set(b.tables)))
        for t in a.tables:
            ra, rb = ([r for r in wixgen.actual_rows(x, t)] for x in (a, b))
            if t == "Property" and prod[1]["Id"] == "*":
                for x in ra + rb:
                    if x["Property"] == "ProductCode":
                        x["Value"] = "*"
            key = lambda r: sorted((k, repr(v)) for k, v in r.items())
            if sorted(ra, key=key) != sorted(rb, key=key):
                raise Violation("table %s differs between two builds: %r" % (t, [x for x in ra if x not in rb] + [x for x in rb if x not in ra]))
        if set(a.streams) != set(b.streams):
            raise Violation("streams differ: %r" % (set(a.streams) ^ set(b.streams)))
        for n in a.streams:
            if n == msifmt.SUMMARY or a.streams[n] == b.streams[n]:
                continue
            if a.streams[n][:4] == b"MSCF":
                x, y = ([(e.name, e.data) for e in cab.read(s)] for s in (a.streams[n], b.streams[n]))
                if x == y:
                    continue
            raise Violation("stream %s differs between two builds" % n)


PROP = P21
