"""What wixl does with documents it cannot build: it says so, fails, and leaves the output alone."""
import copy, os, re
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from ..core import Prop, Violation, case_dir
from .. import tools, wixgen, wixref
from ..wixprop import WixProp

FOCUS = ["shortcut", "key", "registry", "folder", "service", "ini", "feature", "media", "property", "binary", "action", "sequence"]
TAGS = """AdminExecuteSequence AdminUISequence AdvertiseExecuteSequence Binary Component ComponentGroup ComponentGroupRef ComponentRef Condition Control
CreateFolder Custom CustomAction Dialog DialogRef Directory DirectoryRef Feature File Fragment Icon IniFile InstallExecuteSequence InstallUISequence MajorUpgrade
Media MediaTemplate Package Product ProgId ProgressText Property Publish RadioButton RadioButtonGroup RegistryKey RegistrySearch RegistryValue RemoveFolder
ServiceControl ServiceDependency ServiceInstall Shortcut Show Subscribe Text TextStyle UI UIRef UIText Upgrade UpgradeVersion Verb Extension Wix Error
InstallFiles Bogus FeatureRef PropertyRef CustomActionRef""".split()
VALUES = ["", " ", "abc", "-1", "0", "1", "99999", "99999999999", "yes", "no", "maybe", "*", "é" * 40, "x" * 300, "a b", "{}", "12345678-1234-1234-1234-123456789012",
          "{ABC}", "$(var.Nope)", "$(", "$$", "../x", "/", "a/b", "TARGETDIR", "HKLM", "install", "perUser", "'", "[", "1.2.3.4.5", "0x10", "-", "a|b", "|", ".", "\\", "\t", "%s", "NaN"]
BADREFS = ("ComponentRef", "ComponentGroupRef", "DirectoryRef", "UIRef", "DialogRef")
NEW = 'NoSuchThing_7'


mutation = st.one_of(
    st.tuples(st.just("delattr"), st.integers(0, 999), st.integers(0, 99)),
    st.tuples(st.just("delattr"), st.integers(0, 999), st.integers(0, 99)),
    st.tuples(st.just("setattr"), st.integers(0, 999), st.integers(0, 99), st.sampled_from(VALUES)),
    st.tuples(st.just("setattr"), st.integers(0, 999), st.integers(0, 99), st.sampled_from(VALUES)),
    st.tuples(st.just("takeattr"), st.integers(0, 999), st.integers(0, 99), st.integers(0, 999)),
    st.tuples(st.just("newattr"), st.integers(0, 999), st.sampled_from(["Bogus", "Id", "Name", "Condition", "KeyPath", "Source", "xml:lang", "DiskId", "Guid", "Directory", "Value", "Type"]), st.sampled_from(VALUES)),
    st.tuples(st.just("rename"), st.integers(0, 999), st.sampled_from(TAGS)),
    st.tuples(st.just("insert"), st.integers(0, 999), st.integers(0, 99), st.sampled_from(TAGS), st.booleans()),
    st.tuples(st.just("remove"), st.integers(0, 999)),
    st.tuples(st.just("dup"), st.integers(0, 999), st.integers(0, 999)),
    st.tuples(st.just("move"), st.integers(0, 999), st.integers(0, 999)),
    st.tuples(st.just("hoist"), st.integers(0, 999)),
    st.tuples(st.just("text"), st.integers(0, 999), st.sampled_from(["x", " some text ", "1", "<>&"])),
    st.tuples(st.just("deep"), st.integers(0, 999), st.sampled_from([2, 40, 300])),
    st.tuples(st.just("badref"), st.integers(0, 99)),
    st.tuples(st.just("cycle"), st.integers(0, 99)),
    st.tuples(st.just("dircycle"), st.integers(0, 99), st.integers(0, 99)),
)
brk = st.one_of(
    st.tuples(st.just("nofile"), st.integers(0, 99)),
    st.tuples(st.just("dirfile"), st.integers(0, 99)),
    st.tuples(st.just("cut"), st.integers(0, 10 ** 6)),
    st.tuples(st.just("bytes"), st.integers(0, 10 ** 6), st.sampled_from([b"<", b"&", b"\0", b"\xff\xfe", b">", b"</Wix>", b"\"", b"&nope;", b"<?if ?>", b"<?nope?>", b"<!-- -- -->", b"<![CDATA[x]]>", b"<?include nope.wxi?>", b"$(var.nope)", b" "]).map(lambda b: b.hex())),
    st.tuples(st.just("endtag"), st.integers(0, 99)),
    st.tuples(st.just("empty")),
    st.tuples(st.just("noinput")),
    st.tuples(st.just("outdir")),
    st.tuples(st.just("outnodir")),
    st.tuples(st.just("arch")),
    st.tuples(st.just("ext")),
)


@st.composite
def cases(draw):
    c = draw(wixgen.document(focus=tuple(draw(st.sets(st.sampled_from(FOCUS), max_size=3))), files_max=300))
    c["mut"] = [list(m) for m in draw(st.lists(mutation, min_size=0, max_size=3))]
    c["brk"] = list(draw(brk)) if not c["mut"] or draw(st.integers(0, 3)) == 0 else None
    c["old"] = draw(st.sampled_from([None, "text", "text"]))
    return c


def elements(docs):
    out = []

    def walk(n, par):
        if isinstance(n, str) or n[0].startswith("#"):
            return
        out.append((n, par))
        for k in n[2] if len(n) > 2 else []:
            walk(k, n)
    for d in docs:
        walk(d, None)
    return out


def mutate(docs, muts):
    docs = copy.deepcopy(docs)
    must = []
    for m in sorted(muts, key=lambda m: m[0] == "badref"):  # a broken reference has to survive the others
        els = elements(docs)
        nonroot = [e for e in els if e[1] is not None]
        if not nonroot:
            break
        k = m[0]
        if k == "dircycle":
            rs = [(e, [x for x, _ in elements([e]) if x[0] == "Directory" and x[1].get("Id")]) for e, p in els if e[0] == "DirectoryRef"]
            rs = [r for r in rs if r[1]]
            if rs:
                e, inside = rs[m[1] % len(rs)]
                e[1]["Id"] = inside[m[2] % len(inside)][1]["Id"]
            continue
        if k in ("badref", "cycle"):
            if k == "badref":
                rs = [e for e, p in els if e[0] in BADREFS and p is not None]
                if rs:
                    rs[m[1] % len(rs)][1]["Id"] = NEW
                    must.append("a reference to %s" % NEW)
            else:
                gs = [e for e, p in els if e[0] == "ComponentGroup" and e[1].get("Id")]
                if gs:
                    a, b = gs[m[1] % len(gs)], gs[m[1] // 7 % len(gs)]
                    a[2].append(["ComponentGroupRef", {"Id": b[1]["Id"]}, []])
                    if a is not b:
                        b[2].append(["ComponentGroupRef", {"Id": a[1]["Id"]}, []])
            continue
        tags = {}
        for x in els:
            tags.setdefault(x[0][0], []).append(x)
        same = tags[sorted(tags)[m[1] % len(tags)]]
        e, par = same[m[1] // 7 % len(same)]
        while len(e) < 3:
            e.append([])
        names = sorted(e[1])
        if k == "delattr" and names:
            del e[1][names[m[2] % len(names)]]
        elif k == "setattr" and names:
            e[1][names[m[2] % len(names)]] = m[3]
        elif k == "takeattr" and names:
            o = els[m[3] % len(els)][0]
            n = names[m[2] % len(names)]
            if n in o[1]:
                e[1][n] = o[1][n]
        elif k == "newattr":
            e[1][m[2]] = m[3]
        elif k == "rename":
            e[0] = m[2]
        elif k == "insert":
            e[2].insert(m[2] % (len(e[2]) + 1), [m[3], {"Id": "Ins_1"} if m[4] else {}, []])
        elif k == "remove":
            e, par = nonroot[m[1] % len(nonroot)]
            par[2].remove(e)
        elif k == "dup":
            e, par = nonroot[m[1] % len(nonroot)]
            par[2].append(copy.deepcopy(e))
        elif k == "move":
            e, par = nonroot[m[1] % len(nonroot)]
            inside = [id(x) for x, _ in elements([e])]
            to = [x for x, _ in els if id(x) not in inside]
            if to:
                t = to[m[2] % len(to)]
                while len(t) < 3:
                    t.append([])
                par[2].remove(e)
                t[2].append(e)
        elif k == "hoist":
            e, par = nonroot[m[1] % len(nonroot)]
            i = par[2].index(e)
            par[2][i:i + 1] = e[2] if len(e) > 2 else []
        elif k == "text":
            e[2].append(m[2])
        elif k == "deep":
            x = e
            for i in range(m[2]):
                n = [e[0], dict(e[1]), []]
                if "Id" in n[1]:
                    n[1]["Id"] += "_%d" % i
                x[2].append(n)
                x = n
    return docs, must


def circular(docs):
    """Whether a feature takes a component group that contains itself."""
    els = elements(docs)
    groups = {}
    for e, p in els:
        if e[0] == "ComponentGroup":
            groups.setdefault(e[1].get("Id"), set()).update(k[1].get("Id") for k in (e[2] if len(e) > 2 else []) if not isinstance(k, str) and k[0] == "ComponentGroupRef")

    def bad(g, path):
        return g in path or any(bad(x, path + [g]) for x in groups.get(g, ()))
    return any(bad(e[1].get("Id"), []) for e, p in els if e[0] == "ComponentGroupRef" and p is not None and p[0] == "Feature")


class P28(WixProp):
    id = "P28"
    quick = 300
    thorough = 3000
    rule = ("a case is a generated document with up to 3 changes to its elements and attributes and possibly one change to its bytes, sources, or command line; non-trivial: wixl rejects it")

    def strategy(self):
        return cases()

    def run(self, case, env):
        d = case_dir(env)
        docs, must = mutate(case["docs"], case["mut"])
        labels = set("mut " + m[0] for m in case["mut"])
        c2 = dict(case, docs=docs)
        try:
            ins, look = wixgen.write_case(d, c2)
        except Exception as e:
            return False, ["unwritable"]
        out = "out.msi"
        extra = []
        b = case["brk"]
        if b:
            labels.add("brk " + b[0])
            first = os.path.join(d, ins[0])
            data = open(first, "rb").read()
            if b[0] in ("nofile", "dirfile"):
                fs = sorted(case["files"])
                if fs:
                    p = os.path.join(d, fs[b[1] % len(fs)])
                    os.unlink(p)
                    if b[0] == "dirfile":
                        os.mkdir(p)
                    gone = fs[b[1] % len(fs)] if b[0] == "nofile" else None
                    have = look
                    look = lambda n: None if os.path.normpath(n) == gone else have(n)
            elif b[0] == "cut":
                data = data[:b[1] % max(len(data.rstrip()) - 1, 1)]
                must.append("the document is cut")
            elif b[0] == "bytes":
                i = b[1] % max(len(data), 1)
                data = data[:i] + bytes.fromhex(b[2]) + data[i:]
            elif b[0] == "endtag":
                ends = [m for m in re.finditer(rb"</(\w+)>", data)]
                if ends:
                    m = ends[b[1] % len(ends)]
                    data = data[:m.start()] + b"</Wrong>" + data[m.end():]
                    must.append("an end tag does not match")
            elif b[0] == "empty":
                data = b""
                must.append("the document is empty")
            elif b[0] == "noinput":
                ins[b[1] % len(ins) if len(b) > 1 else 0] = "absent.wxs"
                must.append("an input file is missing")
            elif b[0] == "outdir":
                out = "outdir"
                os.mkdir(os.path.join(d, out))
                must.append("the output is a directory")
            elif b[0] == "outnodir":
                out = "nodir/out.msi"
                must.append("the directory of the output is missing")
            elif b[0] == "arch":
                extra = ["-a", "sparc"]
                must.append("the architecture is unknown")
            elif b[0] == "ext":
                extra = ["--ext", "nope"]
                must.append("the extension is unknown")
            if b[0] in ("cut", "bytes", "endtag", "empty"):
                open(first, "wb").write(data)
        if not must and not (b and b[0] == "bytes"):
            try:
                wixgen.reference(c2, look)
            except wixref.Reject as e:
                if str(e) != "group within itself" or circular(docs):
                    must.append("the document is wrong: %s" % e)
            except Exception:
                labels.add("outside the reference")
        old = None
        if case["old"] and out == "out.msi":
            old = b"an older file\n" * 30
            open(os.path.join(d, out), "wb").write(old)
        tmp = os.path.join(env.tmp, "t")
        os.makedirs(tmp, exist_ok=True)
        cmd = [env.p.wixl, "-o", out] + (["-a", case["arch"]] if case.get("arch") else []) + extra + ins
        r = tools.run(cmd, cwd=d, env={"TMPDIR": tmp})
        err = r.err.decode("utf-8", "replace")
        left = os.listdir(tmp)
        if left:
            raise Violation("temporary files are left: %s" % left)
        if r.rc == 0:
            if must:
                raise Violation("wixl succeeds though %s" % must[0])
            f = wixgen.parse(os.path.join(d, out))
            m = inconsistent(f)
            if m:
                raise Violation("the package is inconsistent: %s" % m)
            if not (b and b[0] == "bytes"):
                for e, p in elements(docs):
                    if e[0] in NAMED and p is not None and e[1].get("Id") and (e[0] != "Property" or e[1].get("Value")):
                        t, c = NAMED[e[0]]
                        if not any(row[c] == wixref.dollars(e[1]["Id"]) for row in (wixgen.actual_rows(f, t) if t in f.tables else ())):
                            raise Violation("wixl succeeds and drops %s %s" % (e[0], e[1]["Id"]))
            labels.add("accepted")
            return False, labels
        if r.rc != 1:
            raise Violation("exit status %d: %s" % (r.rc, err[-300:]))
        if not err.strip():
            raise Violation("wixl fails without a message")
        labels.add("rejected")
        labels.add("E: " + " ".join(err.strip().splitlines()[-1].split()[:2])[:30])
        p = os.path.join(d, out)
        if out == "outdir":
            if os.listdir(p):
                raise Violation("files in the output directory")
        elif old is None:
            if os.path.lexists(p):
                raise Violation("wixl fails and leaves an output file of %d bytes" % os.path.getsize(p))
        elif os.path.lexists(p) and open(p, "rb").read() != old:
            raise Violation("wixl fails and the older output file has changed")
        return True, labels


NAMED = {t: (t, {"Icon": "Name", "Binary": "Name", "CustomAction": "Action"}.get(t, t))
         for t in ("Directory", "Component", "File", "Feature", "Shortcut", "ServiceInstall", "ServiceControl", "Icon", "Binary", "CustomAction", "Property", "Dialog", "Control")}

FOREIGN = {
    "Directory": [("Directory_Parent", "Directory", "Directory")],
    "Component": [("Directory_", "Directory", "Directory")],
    "File": [("Component_", "Component", "Component")],
    "FeatureComponents": [("Feature_", "Feature", "Feature"), ("Component_", "Component", "Component")],
    "Feature": [("Feature_Parent", "Feature", "Feature")],
    "Registry": [("Component_", "Component", "Component")],
    "RemoveFile": [("Component_", "Component", "Component")],
    "CreateFolder": [("Component_", "Component", "Component")],
    "Shortcut": [("Component_", "Component", "Component")],
    "ServiceInstall": [("Component_", "Component", "Component")],
    "ServiceControl": [("Component_", "Component", "Component")],
    "IniFile": [("Component_", "Component", "Component")],
    "MsiFileHash": [("File_", "File", "File")],
    "Control": [("Dialog_", "Dialog", "Dialog")],
    "ControlEvent": [("Dialog_", "Dialog", "Dialog")],
    "ControlCondition": [("Dialog_", "Dialog", "Dialog")],
    "EventMapping": [("Dialog_", "Dialog", "Dialog")],
}


def inconsistent(f):
    for t, refs in FOREIGN.items():
        if t not in f.tables:
            continue
        rows = wixgen.actual_rows(f, t)
        for col, ft, fc in refs:
            have = {r[fc] for r in wixgen.actual_rows(f, ft)} if ft in f.tables else set()
            for r in rows:
                if r.get(col) is not None and r[col] not in have:
                    return "%s.%s = %r is not in %s" % (t, col, r[col], ft)
    for t, (cols, rows) in f.tables.items():
        seen = set()
        for r in rows:
            k = tuple(v for (c, ty), v in zip(cols, r) if ty & 0x2000)
            if k in seen:
                return "two rows %r in %s" % (k, t)
            seen.add(k)
            for (c, ty), v in zip(cols, r):
                if v is None and not ty & 0x1000:
                    return "%s.%s is null in %r" % (t, c, r)


PROP = P28
