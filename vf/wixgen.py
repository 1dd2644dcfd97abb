"""Generators of WiX documents, and comparison of what wixl makes of them with the reference compiler."""
import os, random, time

from hypothesis import strategies as st

from . import cab, cfb, msifmt, suminfo, tools, wixref
from .core import Violation, case_dir
from .wixref import Compiler, RAND, Reject

GUIDRE = "0123456789ABCDEF"
ident = st.one_of(st.from_regex(r"[A-Za-z_][A-Za-z0-9_.]{0,8}", fullmatch=True), st.from_regex(r"[A-Z][a-z]{2,5}[0-9]", fullmatch=True))
WORD = "abcXYZ019 .-_'\"`<>&;[]{}()%$#@!?*|/\\=,é€ß"
text = st.one_of(st.text(WORD, min_size=1, max_size=12).map(lambda s: s.replace("$(", "$ (")), st.sampled_from(["a", "x y", "[INSTALLDIR]x", "&amp;", "1.2.3", "{}", "1", " lead", "trail ", "[#F]", "\"q\" %1", "a\nb", "t\tt", "x" * 300]))
fname = st.one_of(st.from_regex(r"[a-z]{1,8}\.[a-z]{1,3}", fullmatch=True), st.sampled_from(["LONGNA~1.TXT|long name here.txt", "a b.txt", "réadme.txt", "noext", "x.y.z", "UPPER.EXE", "a+b.dll"]))
guids = st.uuids().map(lambda u: str(u)).flatmap(lambda s: st.sampled_from([s, s.upper(), "{" + s + "}", "{" + s.upper() + "}"]))
version = st.from_regex(r"[1-9]?[0-9]\.[0-9]{1,2}\.[0-9]{1,4}(\.[0-9])?", fullmatch=True)
yesno = st.sampled_from(["yes", "no", "yes", "no", "Yes"])
arch_names = ["x86", "intel", "x64", "ia64", "intel64"]


def opt(draw, d, k, s, p=0.5):
    if draw(st.floats(0, 1)) < p:
        d[k] = draw(s)


class Ids:
    def __init__(self):
        self.used = set()

    def new(self, draw, pre=""):
        for _ in range(20):
            i = pre + draw(ident)
            if i.lower() not in self.used:
                break
        else:
            i = "%s_%d" % (i, len(self.used))
        self.used.add(i.lower())
        return i


SEQ_TAGS = {
    "InstallExecuteSequence": "AllocateRegistrySpace AppSearch BindImage CCPSearch CostFinalize CostInitialize CreateFolders CreateShortcuts DeleteServices DuplicateFiles FileCost "
    "FindRelatedProducts InstallExecute InstallFiles InstallFinalize InstallInitialize InstallServices InstallValidate LaunchConditions MigrateFeatureStates MoveFiles PatchFiles "
    "ProcessComponents PublishComponents PublishFeatures PublishProduct RegisterProduct RegisterUser RemoveExistingProducts RemoveFiles RemoveRegistryValues SelfRegModules StartServices "
    "StopServices UnpublishFeatures ValidateProductID WriteIniValues WriteRegistryValues ScheduleReboot ForceReboot ResolveSource DisableRollback".split(),
    "InstallUISequence": "AppSearch CostFinalize CostInitialize ExecuteAction FileCost FindRelatedProducts LaunchConditions MigrateFeatureStates ValidateProductID ExitDialog FatalError UserExit PrepareDlg "
    "ProgressDlg WelcomeDlg ResumeDlg MaintenanceWelcomeDlg".split(),
    "AdminExecuteSequence": "CostFinalize CostInitialize FileCost InstallAdminPackage InstallFiles InstallFinalize InstallInitialize InstallValidate LaunchConditions PatchFiles".split(),
    "AdminUISequence": "CostFinalize CostInitialize ExecuteAction ExitDialog FatalError FileCost UserExit".split(),
    "AdvertiseExecuteSequence": "CostFinalize CostInitialize CreateShortcuts InstallFinalize InstallInitialize InstallValidate PublishComponents PublishFeatures PublishProduct RegisterClassInfo".split(),
}


@st.composite
def document(draw, focus=(), maxcomp=4, files_max=2000):
    """-> {"docs": [wix], "files": {path: [seed, size]}, "arch": .., "names": [..]}; valid unless it clashes by chance."""
    F = set(focus)
    ids = Ids()
    P = draw
    files = {}

    def newfile(seed=None):
        n = P(st.sampled_from(["", "", "src/"])) + P(fname).replace("|", "_") + (str(len(files)) if P(st.booleans()) else "")
        if n not in files:
            files[n] = [P(st.integers(0, 999)), P(st.one_of(st.integers(0, 60), st.integers(0, files_max), st.sampled_from([0, 1, 32768, 32769, 4096])))]
        return n

    # directories
    tree = ["Directory", {"Id": "TARGETDIR", "Name": "SourceDir"}, []]
    if P(st.integers(0, 7)) == 0:
        del tree[1]["Name"]
    dirs = [tree]
    frags = []
    for i in range(P(st.integers(1, 5))):
        par = P(st.sampled_from(dirs))
        d = ["Directory", {"Id": ids.new(P)}, []]
        if P(st.integers(0, 5)):
            d[1]["Name"] = P(st.one_of(fname, ident, st.sampled_from([".", "PROGRA~1|Program Files", "a dir"])))
        if P(st.integers(0, 4)) == 0:
            fr = ["Fragment", {}, [["DirectoryRef", {"Id": par[1]["Id"]}, [d]]]]
            frags.append(fr)
        else:
            par[2].append(d)
        dirs.append(d)

    icons, bins = [], []
    prodkids = []
    # components
    comps = []
    groups = []
    filerefs = []
    for i in range(P(st.integers(1, maxcomp))):
        cid = ids.new(P, "c")
        c = ["Component", {"Id": cid, "Guid": P(st.one_of(st.just("*"), st.just("*"), guids, st.just("")))}, []]
        opt(P, c[1], "Win64", yesno, 0.2)
        opt(P, c[1], "Permanent", yesno, 0.2)
        where = P(st.integers(0, 5))
        d = P(st.sampled_from(dirs))
        if where <= 2:
            d[2].append(c)
        elif where == 3:
            frags.append(["Fragment", {}, [["DirectoryRef", {"Id": d[1]["Id"]}, [c]]]])
        else:
            g = None
            if groups and P(st.booleans()):
                g = P(st.sampled_from(groups))
            else:
                g = ["ComponentGroup", {"Id": ids.new(P, "g"), "Directory": d[1]["Id"]}, []]
                groups.append(g)
                frags.append(["Fragment", {}, [g]])
            g[2].append(c)
        comps.append(c)
        kids = c[2]
        nfiles = P(st.integers(0, 3))
        for j in range(nfiles):
            f = ["File", {"Id": ids.new(P, "f")}, []]
            src = newfile()
            if P(st.booleans()):
                f[1]["Source"] = src
                opt(P, f[1], "Name", fname, 0.6)
            else:
                f[1]["Source"] = src
                f[1]["Name"] = P(fname)
            if "/" not in src and "_" not in src and P(st.integers(0, 5)) == 0:
                f[1] = {"Id": f[1]["Id"], "Name": src}      # found by its name
            opt(P, f[1], "DefaultVersion", version, 0.15)
            if filerefs and j and P(st.integers(0, 6)) == 0:
                f[1]["CompanionFile"] = P(st.sampled_from(filerefs))
            filerefs.append(f[1]["Id"])
            kids.append(f)
            if "shortcut" in F and P(st.integers(0, 2)) == 0:
                f[2].append(shortcut(P, ids, dirs, icons))
        marks = P(st.integers(0, 3)) < (2 if "key" in F else 1)
        if "registry" in F:
            for j in range(P(st.integers(0, 3))):
                kids.append(regvalue(P, ids, True))
            if P(st.booleans()):
                k = ["RegistryKey", {"Root": P(regroot), "Key": P(regkey)}, [regvalue(P, ids, False) for _ in range(P(st.integers(1, 3)))]]
                kids.append(k)
            if P(st.integers(0, 2)) == 0:
                kids.append(progid(P, filerefs))
        elif P(st.integers(0, 4)) == 0:
            kids.append(regvalue(P, ids, True))
        if marks:
            ks = [k for k in kids if k[0] in ("File", "RegistryValue") and "CompanionFile" not in k[1]]
            if ks:
                P(st.sampled_from(ks))[1]["KeyPath"] = "yes"
                for k in ks:
                    if "KeyPath" not in k[1] and P(st.integers(0, 3)) == 0:
                        k[1]["KeyPath"] = "no"
        if "folder" in F or P(st.integers(0, 4)) == 0:
            if P(st.integers(0, 1)):
                kids.append(["CreateFolder", {}, []])
            if P(st.integers(0, 1)):
                kids.append(["RemoveFolder", {"Id": ids.new(P), "On": P(st.sampled_from(["install", "uninstall", "both"]))}, []])
        if "shortcut" in F and P(st.integers(0, 1)):
            kids.append(shortcut(P, ids, dirs, icons))
        if "service" in F:
            for j in range(P(st.integers(0, 2))):
                kids.append(service(P, ids))
            for j in range(P(st.integers(0, 2))):
                kids.append(control(P, ids))
        if "ini" in F:
            for j in range(P(st.integers(0, 3))):
                a = {"Id": ids.new(P), "Action": P(st.sampled_from(["addLine", "createLine", "removeLine", "addTag", "removeTag"])), "Name": P(fname), "Section": P(text), "Key": P(text),
                     "Value": P(text)}
                opt(P, a, "Directory", st.sampled_from([d[1]["Id"] for d in dirs]), 0.7)
                kids.append(["IniFile", a, []])
        if P(st.booleans()):
            c[2][:] = P(st.permutations(kids))
        # whatever has no key cannot have a generated GUID; the first of File, RegistryValue is the key
        if c[1]["Guid"] == "*" and not any(k[0] in ("File", "RegistryValue", "RegistryKey") for k in kids):
            c[1]["Guid"] = P(guids)
        keyel = [k for k in kids if k[0] in ("File", "RegistryValue", "RegistryKey")]
        if keyel and not any(yeskey(k) for k in keyel) and keyel[0][0] == "File":
            keyel[0][1].pop("CompanionFile", None)
    # nested groups
    for g in groups:
        if P(st.integers(0, 3)) == 0:
            g[2].append(["ComponentRef", {"Id": P(st.sampled_from(comps))[1]["Id"]}, []])
    for i, g in enumerate(groups[1:]):
        if P(st.integers(0, 2)) == 0:
            g[2].append(["ComponentGroupRef", {"Id": groups[i][1]["Id"]}, []])
    # features
    feats, roots = [], []
    for i in range(P(st.integers(1, 4))):
        f = ["Feature", {"Id": ids.new(P)[:30]}, []]
        opt(P, f[1], "Level", st.integers(0, 300).map(str), 0.6)
        opt(P, f[1], "Title", text, 0.5)
        opt(P, f[1], "Description", text, 0.5)
        if "feature" in F or P(st.integers(0, 4)) == 0:
            opt(P, f[1], "Display", st.sampled_from(["collapse", "expand", "hidden", "0", "7", "24", "101"]), 0.6)
            opt(P, f[1], "ConfigurableDirectory", st.sampled_from([d[1]["Id"] for d in dirs]), 0.4)
            opt(P, f[1], "AllowAdvertise", st.sampled_from(["no", "system", "yes"]), 0.4)
            opt(P, f[1], "Absent", st.sampled_from(["allow", "disallow"]), 0.4)
            opt(P, f[1], "InstallDefault", st.sampled_from(["local", "source", "followParent"]), 0.4)
            opt(P, f[1], "TypicalDefault", st.sampled_from(["advertise", "install"]) if f[1].get("AllowAdvertise") != "no" else st.just("install"), 0.3)
        par = None if not feats or P(st.integers(0, 2)) == 0 else P(st.sampled_from(feats))
        (roots if par is None else par[2]).append(f)
        feats.append(f)
    for c in comps:
        grp = [g for g in groups if c in g[2]]
        n = P(st.integers(0, 9))
        if n == 0 and not needs_feature(c):
            continue        # not in any feature: not installed
        f = P(st.sampled_from(feats))
        ref = ["ComponentRef", {"Id": c[1]["Id"]}, []]
        if grp and P(st.integers(0, 3)):
            ref = ["ComponentGroupRef", {"Id": grp[0][1]["Id"]}, []]
        f[2].insert(P(st.integers(0, len(f[2]))), ref)
        if n == 1:
            f[2].append(["ComponentRef", {"Id": c[1]["Id"]}, []])
        if n == 2:
            P(st.sampled_from(feats))[2].append(["ComponentRef", {"Id": c[1]["Id"]}, []])
    prodkids += roots + [tree]
    # media
    if P(st.integers(0, 3)) == 0 and "media" not in F:
        prodkids.append(["MediaTemplate", {"EmbedCab": "yes"}, []])
    else:
        disks = [1]
        if "media" in F:
            disks = P(st.lists(st.integers(1, 6), min_size=1, max_size=3, unique=True))
            for c in comps:
                for k in c[2]:
                    if k[0] == "File":
                        dk = P(st.sampled_from(disks))
                        if dk != 1 or P(st.booleans()):
                            k[1]["DiskId"] = str(dk)
        for dk in disks:
            a = {"Id": str(dk), "Cabinet": "cab%d.cab" % dk if P(st.booleans()) else ids.new(P)[:20] + ".cab", "EmbedCab": "yes"}
            if "media" in F and P(st.integers(0, 2)) == 0:
                a["Cabinet"] = "ext%d.cab" % dk
                a["EmbedCab"] = "no"
                if P(st.booleans()):
                    del a["EmbedCab"]
            opt(P, a, "DiskPrompt", text, 0.4)
            prodkids.append(["Media", a, []])
    prod = {"Name": P(text), "Id": P(st.one_of(st.just("*"), guids)), "UpgradeCode": P(guids), "Language": P(st.sampled_from(["1033", "1031", "0"])), "Version": P(version), "Manufacturer": P(text)}
    opt(P, prod, "Codepage", st.sampled_from(["1252", "65001", "1250"]), 0.5)
    pk = {}
    if P(st.booleans()):
        pk["Id"] = "*"
    for k in ("Keywords", "Comments", "Description", "Manufacturer"):
        opt(P, pk, k, text, 0.4)
    opt(P, pk, "InstallerVersion", st.sampled_from(["100", "200", "301", "500"]), 0.5)
    opt(P, pk, "InstallScope", st.sampled_from(["perUser", "perMachine"]), 0.4)
    opt(P, pk, "Compressed", yesno, 0.3)
    opt(P, pk, "Languages", st.just("1033"), 0.3)
    prodkids.append(["Package", pk, []])
    if "property" in F or P(st.integers(0, 3)) == 0:
        for i in range(P(st.integers(1, 3))):
            p = ["Property", {"Id": ids.new(P, "P")}, []]
            opt(P, p[1], "Value", text, 0.7)
            opt(P, p[1], "Secure", yesno, 0.2)
            for j in range(P(st.sampled_from([0, 0, 1, 2])) if "property" in F else 0):
                a = {"Id": ids.new(P), "Root": P(regroot), "Key": P(regkey), "Type": P(st.sampled_from(["raw", "directory", "file"]))}
                opt(P, a, "Name", text, 0.7)
                opt(P, a, "Win64", yesno, 0.3)
                p[2].append(["RegistrySearch", a, []])
            prodkids.append(p)
        for i in range(P(st.integers(0, 2))):
            t = P(st.one_of(text, st.sampled_from(["Installed OR (VersionNT >= 600)", " A < B\n ", "NOT X"])).filter(lambda s: s.strip()))
            prodkids.append(["Condition", {"Message": P(text)}, condtext(P, t)])
        if P(st.booleans()):
            u = ["Upgrade", {"Id": P(guids)}, []]
            for i in range(P(st.integers(1, 3))):
                a = {"Property": ids.new(P)}
                opt(P, a, "Minimum", version, 0.7)
                opt(P, a, "Maximum", version, 0.7)
                if "Minimum" not in a and "Maximum" not in a:
                    a["Minimum"] = P(version)
                for k in ("IncludeMinimum", "IncludeMaximum", "MigrateFeatures", "OnlyDetect"):
                    opt(P, a, k, yesno, 0.4)
                u[2].append(["UpgradeVersion", a, []])
            prodkids.append(u)
        if P(st.booleans()):
            a = {}
            opt(P, a, "DowngradeErrorMessage", text, 0.6)
            opt(P, a, "AllowSameVersionUpgrades", st.sampled_from(["yes", "no"]), 0.5)
            opt(P, a, "AllowDowngrades", st.sampled_from(["yes", "no"]), 0.5)
            prodkids.append(["MajorUpgrade", a, []])
    # streams
    if icons or "binary" in F:
        for i in icons:
            prodkids.append(["Icon", {"Id": i, "SourceFile": nonempty(files, newfile())}, []])
        if "binary" in F:
            for i in range(P(st.integers(0, 2))):
                b = ["Binary", {"Id": ids.new(P), "SourceFile": nonempty(files, newfile())}, []]
                bins.append(b[1]["Id"])
                (prodkids if P(st.booleans()) or not frags else P(st.sampled_from(frags))[2]).append(b)
            if P(st.booleans()):
                prodkids.append(["Icon", {"Id": ids.new(P), "SourceFile": nonempty(files, newfile())}, []])
    # custom actions
    cas = []
    if "action" in F:
        for i in range(P(st.integers(1 if "sequence" in F else 0, 4))):
            a = {"Id": ids.new(P, "CA")}
            k = P(st.integers(0, 4))
            if k == 0:
                a.update(BinaryKey=P(st.sampled_from(bins + ["B0"])), DllEntry=P(ident))
            elif k == 1:
                a.update(BinaryKey=P(st.sampled_from(bins + ["B0"])), JScriptCall=P(ident))
            elif k == 2:
                a.update(Property=ids.new(P), ExeCommand=P(text))
            elif k == 3 and filerefs:
                a.update(FileKey=P(st.sampled_from(filerefs)), ExeCommand=P(text))
            else:
                a.update(Property=ids.new(P), Value=P(text))
            opt(P, a, "Execute", st.sampled_from(["immediate", "deferred", "rollback", "commit", "firstSequence", "oncePerProcess", "clientRepeat"]), 0.6)
            opt(P, a, "Return", st.sampled_from(["check", "ignore", "asyncWait", "asyncNoWait"]), 0.6)
            opt(P, a, "Impersonate", yesno, 0.5)
            cas.append(a["Id"])
            prodkids.append(["CustomAction", a, []])
    if "sequence" in F:
        for s in P(st.lists(st.sampled_from(sorted(SEQ_TAGS)), min_size=1, max_size=3, unique=True)):
            prodkids.append(sequence(P, s, cas))
    prodkids = P(st.permutations(prodkids))
    if frags and "binary" in F and not bins:
        pass
    # distribution over source files
    docs = [["Wix", {}, [["Product", prod, prodkids]]]]
    for fr in frags:
        if P(st.integers(0, 2)) == 0:
            docs.append(["Wix", {}, [fr]])
        else:
            P(st.sampled_from(docs))[2].append(fr)
    if P(st.integers(0, 3)) == 0:
        docs[0][2].insert(0, docs[0][2].pop())
    order = list(range(len(docs)))
    if len(docs) > 1:
        docs = P(st.permutations(docs))
    return {"docs": docs, "files": files, "arch": P(st.sampled_from([None, None] + arch_names))}


def nonempty(files, n):
    if not files[n][1]:
        files[n][1] = 5
    return n


def yeskey(k):
    if k[0] == "RegistryKey":
        return any(yeskey(x) for x in k[2])
    return k[1].get("KeyPath", "no")[:1] in "yY"


def needs_feature(c):
    return any(k[0] == "Shortcut" and "Target" not in k[1] or any(x[0] == "Shortcut" and "Target" not in x[1] for x in (k[2] if len(k) > 2 else []) if not isinstance(x, str)) for k in c[2])


def condtext(draw, t):
    k = draw(st.integers(0, 3))
    if k == 0 and "]]>" not in t:
        return [["#cdata", t]]
    if k == 1 and len(t) > 1:
        i = draw(st.integers(1, len(t) - 1))
        return [t[:i], ["#comment", " c "], t[i:]]
    return [t]


regroot = st.sampled_from(["HKCR", "HKCU", "HKLM", "HKMU", "HKU", "HKLM", "hklm"])
regkey = st.one_of(st.from_regex(r"[A-Z][a-z]{1,6}(\\[A-Za-z0-9 ]{1,5}){0,2}", fullmatch=True), st.sampled_from(["Software\\[Manufacturer]\\X", "a b", "é"]))


def regvalue(draw, ids, full):
    a = {"Type": draw(st.sampled_from(["string", "integer", "binary", "expandable", "multistring"]))}
    a["Value"] = draw(st.one_of(text, st.sampled_from(["#x", "#", "##", "#%a", "1", "0", "#x00ff", "00FF", "[~]a[~]b[~]", "-1"])))
    if full:
        a["Root"], a["Key"] = draw(regroot), draw(regkey)
    else:
        opt(draw, a, "Key", regkey, 0.6)
        opt(draw, a, "Root", regroot, 0.1)
    opt(draw, a, "Name", text, 0.6)
    if draw(st.integers(0, 2)) == 0:
        a["Id"] = ids.new(draw, "r")
    return ["RegistryValue", a, []]


def progid(draw, filerefs):
    p = ["ProgId", {"Id": draw(ident)}, []]
    opt(draw, p[1], "Description", text, 0.7)
    for i in range(draw(st.integers(0, 2))):
        e = ["Extension", {"Id": draw(st.from_regex("[a-z]{2,4}", fullmatch=True)), "ContentType": draw(st.sampled_from(["text/plain", "application/x-foo", "a"]))}, []]
        if filerefs and draw(st.booleans()):
            e[2].append(["Verb", {"Id": "open", "TargetFile": draw(st.sampled_from(filerefs)), "Argument": draw(text)}, []])
        if draw(st.booleans()):
            e[2].append(["MIME", {"ContentType": draw(st.sampled_from(["text/x", "image/q"]))}, []])
        p[2].append(e)
    return p


def shortcut(draw, ids, dirs, icons):
    a = {"Id": ids.new(draw), "Name": draw(fname)}
    opt(draw, a, "Directory", st.sampled_from([d[1]["Id"] for d in dirs]), 0.7)
    if draw(st.integers(0, 3)) == 0:
        i = icons[0] if icons and draw(st.booleans()) else ids.new(draw)
        if i not in icons:
            icons.append(i)
        a["Icon"] = i
        opt(draw, a, "IconIndex", st.integers(-5, 20).map(str), 0.6)
    for k in ("WorkingDirectory", "Description", "Arguments"):
        opt(draw, a, k, text if k != "WorkingDirectory" else st.sampled_from([d[1]["Id"] for d in dirs]), 0.4)
    opt(draw, a, "Target", st.sampled_from(["[INSTALLDIR]a.exe", "[#f]", "X"]), 0.4)
    opt(draw, a, "Advertise", st.just("yes"), 0.2)
    return ["Shortcut", a, []]


def service(draw, ids):
    a = {"Id": ids.new(draw), "Name": draw(text), "Type": draw(st.sampled_from(["ownProcess", "shareProcess"])), "Start": draw(st.sampled_from(["auto", "demand", "disabled"])),
         "ErrorControl": draw(st.sampled_from(["ignore", "normal", "critical"]))}
    for k in ("DisplayName", "LoadOrderGroup", "Account", "Password", "Arguments", "Description"):
        opt(draw, a, k, text, 0.3)
    for k in ("Interactive", "EraseDescription", "Vital"):
        opt(draw, a, k, yesno, 0.3)
    kids = []
    for i in range(draw(st.sampled_from([0, 0, 1, 2, 3]))):
        k = {"Id": draw(ident)}
        opt(draw, k, "Group", yesno, 0.5)
        kids.append(["ServiceDependency", k, []])
    return ["ServiceInstall", a, kids]


def control(draw, ids):
    a = {"Id": ids.new(draw), "Name": draw(text)}
    for k in ("Start", "Stop", "Remove"):
        opt(draw, a, k, st.sampled_from(["install", "uninstall", "both"]), 0.6)
    opt(draw, a, "Wait", yesno, 0.5)
    kids = [["ServiceArgument", {}, [draw(st.text("abc 019-", min_size=1, max_size=5).filter(lambda s: s.strip()))]] for _ in range(draw(st.sampled_from([0, 0, 1, 2, 3])))]
    return ["ServiceControl", a, kids]


def sequence(draw, name, cas):
    kids = []
    std = SEQ_TAGS[name]
    defined = []
    for i in range(draw(st.integers(2, 7))):
        k = draw(st.integers(0, 3))
        if k == 0 or not cas:
            tag = draw(st.sampled_from(std))
            n = tag
            a = {}
        else:
            tag = "Custom"
            n = draw(st.sampled_from(cas))
            a = {"Action": n}
        how = draw(st.integers(0, 3))
        if how == 0 or k == 0 and draw(st.booleans()):
            # next to a standard action there may be no room
            near = [v + d for v in wixref.DEFAULT_SEQ.values() for d in (-1, 0, 1) if v + d > 0]
            a["Sequence"] = str(draw(st.one_of(st.integers(1, 7000), st.sampled_from(near))))
        elif how == 1 or tag != "Custom" and n in wixref.DEFAULT_SEQ:
            if tag == "Custom" or n not in wixref.DEFAULT_SEQ:
                a["After"] = draw(st.sampled_from(std + defined))
        elif how == 2:
            a["Before"] = draw(st.sampled_from(std + defined))
        else:
            a[draw(st.sampled_from(["Before", "After"]))] = draw(st.sampled_from(std[:6] + defined))
        if tag == "Custom" and draw(st.integers(0, 4)) == 0:
            for k in ("Before", "After"):
                a.setdefault(k, draw(st.sampled_from(std + defined)))
        if "UI" in name and tag == "Custom" and draw(st.integers(0, 5)) == 0:
            a = {"Action": n, "OnExit": draw(st.sampled_from(["success", "cancel", "error", "suspend"]))}
        x = [tag, a, []]
        if draw(st.booleans()):
            t = draw(st.sampled_from(["NOT Installed", "A < B", " x ", "1", "NOT REMOVE ~= \"ALL\""]))
            x[2] = condtext(draw, t)
        elif draw(st.integers(0, 5)) == 0:
            a["Condition"] = "C1"
        kids.append(x)
        defined.append(n)
    return [name, {}, kids]


# -- user interface


UITYPES = ["PushButton", "Edit", "CheckBox", "Text", "Bitmap", "Line", "RadioButtonGroup", "ScrollableText", "ProgressBar", "Icon", "PathEdit", "VolumeCostList", "PushButton", "Edit"]
uitext = st.one_of(text, st.sampled_from(["[ProductName] Setup", "{\\Title}&Next", "  two\nlines ", "WixUI_Bmp_Banner", "[ButtonText_Next]"]))
coord = st.integers(0, 600).map(str)


def uicontrol(draw, cid, props, texts, dialogs):
    a = {"Id": cid, "Type": draw(st.sampled_from(UITYPES))}
    for k in ("X", "Y", "Width", "Height"):
        opt(draw, a, k, coord, 0.8)
    flags = ["Cancel", "Default", "Disabled", "ElevationShield", "Fixed", "FixedSize", "Hidden", "NoPrefix", "ProgressBlocks", "ShowRollbackCost", "Sunken", "Indirect", "Icon", "TabSkip", "Transparent"]
    for k in draw(st.lists(st.sampled_from(flags), max_size=5, unique=True)):
        a[k] = draw(yesno)
    opt(draw, a, "IconSize", st.sampled_from(["16", "32", "48"]), 0.15)
    opt(draw, a, "ToolTip", uitext, 0.15)
    opt(draw, a, "Text", uitext, 0.5)
    for k in ("Default", "Disable", "Enable", "Hide", "Show"):
        opt(draw, a, k + "Condition", st.sampled_from(["X", "NOT Installed", "A < B", "1"]), 0.15)
    if a["Type"] == "CheckBox" or draw(st.integers(0, 2)) == 0:
        a["Property"] = draw(props)
    if a["Type"] == "CheckBox" or draw(st.integers(0, 9)) == 0:
        opt(draw, a, "CheckBoxValue", uitext, 0.6)
    kids = []
    if draw(st.integers(0, 4)) == 0:
        if texts and draw(st.booleans()):
            kids.append(["Text", {"SourceFile": draw(st.sampled_from(texts))}, []])
        else:
            kids.append(["Text", {}, condtext(draw, draw(uitext.filter(lambda s: s.strip(" \t\n\r"))))])
    for i in range(draw(st.sampled_from([0, 0, 1, 1, 2, 3]))):
        kids.append(publish(draw, dialogs, {}))
    for e in draw(st.lists(st.sampled_from(["ActionText", "SetProgress", "TimeRemaining"]), max_size=2, unique=draw(st.integers(0, 20)) != 17)):
        kids.append(["Subscribe", {"Event": e, "Attribute": draw(st.sampled_from(["Text", "Progress", "Visible"]))}, []])
    if a["Type"] == "RadioButtonGroup" or draw(st.integers(0, 12)) == 0:
        g = ["RadioButtonGroup", {"Property": draw(props)}, []]
        for i in range(draw(st.integers(0, 3))):
            b = {"Value": draw(uitext), "X": draw(coord), "Y": draw(coord), "Width": draw(coord), "Height": draw(coord)}
            opt(draw, b, "Text", uitext, 0.7)
            opt(draw, b, "Help", uitext, 0.3)
            g[2].append(["RadioButton", b, []])
        kids.append(g)
    return ["Control", a, draw(st.permutations(kids))]


def publish(draw, dialogs, a):
    if draw(st.integers(0, 3)) == 0:
        a["Property"] = draw(st.sampled_from(["P1", "_Mode", "WIXUI_X"]))
        opt(draw, a, "Value", uitext, 0.6)
    else:
        a["Event"] = draw(st.sampled_from(["NewDialog", "EndDialog", "SpawnDialog", "DoAction"]))
        a["Value"] = draw(st.sampled_from(dialogs + ["Return", "Exit"]))
    opt(draw, a, "Condition", st.sampled_from(["1", "NOT Installed", "A < B", "X AND Y"]), 0.5)
    opt(draw, a, "Order", st.integers(0, 40).map(str), 0.3)
    return ["Publish", a, []]


def uidialog(draw, did, ids, texts, dialogs):
    a = {"Id": did, "Width": draw(coord), "Height": draw(coord)}
    opt(draw, a, "Title", uitext, 0.6)
    for k in draw(st.lists(st.sampled_from(["CustomPalette", "ErrorDialog", "Hidden", "KeepModeless", "LeftScroll", "Modeless", "NoMinimize", "RightAligned", "RightToLeft", "TrackDiskSpace"]), max_size=4, unique=True)):
        a[k] = draw(yesno)
    n = draw(st.integers(1, 5))
    names = draw(st.lists(st.sampled_from(["Next", "Back", "Cancel", "Title", "Text", "Banner", "Line", "A.b", "_x"]), min_size=n, max_size=n, unique=True))
    cnt = [0]

    def fresh():
        cnt[0] += 1
        return "%s_%d" % (did.upper(), cnt[0])
    return ["Dialog", a, [uicontrol(draw, c, st.builds(fresh), texts, dialogs) for c in names]]


@st.composite
def ui_document(draw):
    """A document with a user interface, and the directory of the extension."""
    P = draw
    base = P(document(focus=("binary",), maxcomp=1, files_max=60))
    files = dict(base["files"])
    texts = []
    for i in range(P(st.integers(0, 2))):
        texts.append("ui%d.txt" % i)
        files[texts[-1]] = ["text", P(st.sampled_from(["plain", "{\\rtf1 a\\par}\r\nb\n", "é€", " lead\ttrail \n", "$(var.X) $$", "x" * 5000]))]
    ids = Ids()
    # what there is: dialogs and UI elements in the documents or in the extension, which are loaded when they are needed
    extd = ["CancelDlg"] + P(st.lists(st.sampled_from(["WelcomeDlg", "ExitDialog", "ProgressDlg", "DlgX", "Dlg.Y"]), max_size=3, unique=True))
    extu = P(st.lists(st.sampled_from(["WixUI_Minimal", "WixUI_A"]), max_size=2, unique=True))
    own = P(st.lists(st.sampled_from(["MyDlg", "D2", "WelcomeDlg", "UserExit"]), min_size=1, max_size=3, unique=True))
    ownu = P(st.lists(st.sampled_from(["MyUI", "WixUI_A"]), max_size=2, unique=True))
    every = sorted(set(extd + own))
    allu = sorted(set(extu + ownu + ["WixUI_Common"]))

    def some(kids, rank):
        """Further elements of a UI element; references only go from lower to higher rank."""
        for i in range(P(st.integers(0, 5))):
            k = P(st.integers(0, 8))
            if k == 0:
                kids.append(["Property", {"Id": ids.new(P, "U"), "Value": P(text)}, []])
            elif k == 1:
                a = {"Id": ids.new(P, "T"), "FaceName": P(st.sampled_from(["Tahoma", "A B"])), "Size": str(P(st.integers(6, 20)))}
                for c in ("Red", "Green", "Blue"):
                    opt(P, a, c, st.sampled_from(["0", "1", "128", "255"]), 0.4)
                for c in ("Bold", "Italic", "Underline", "Strike"):
                    opt(P, a, c, yesno, 0.3)
                kids.append(["TextStyle", a, []])
            elif k == 2:
                a = {"Id": ids.new(P, "X")}
                opt(P, a, "Value", uitext, 0.8)
                kids.append(["UIText", a, []])
            elif k == 3:
                a = {"Action": ids.new(P, "A")}
                opt(P, a, "Template", uitext, 0.5)
                kids.append(["ProgressText", a, condtext(P, P(uitext.filter(lambda s: s.strip(" \t\n\r"))))])
            elif k == 4:
                kids.append(["DialogRef", {"Id": P(st.sampled_from(every + (["Missing"] if P(st.integers(0, 30)) == 17 else [])))}, []])
            elif k == 5:
                kids.append(["UIRef", {"Id": P(st.sampled_from(allu))}, []])
            elif k == 6:
                kids.append(publish(P, every, {"Dialog": P(st.sampled_from(every)), "Control": P(st.sampled_from(["Next", "Back", "Cancel"]))}))
            elif k == 7:
                kids.append(["Binary", {"Id": ids.new(P, "B"), "SourceFile": nonempty(files, sorted(n for n in files if files[n][0] != "text")[0]) if any(v[0] != "text" for v in files.values())
                                        else files.setdefault("b.bin", [1, 9]) and "b.bin"}, []])
            else:
                seqs = []
                for j in range(P(st.integers(1, 3))):
                    a = {"Dialog": P(st.sampled_from(every))}
                    k2 = P(st.integers(0, 3))
                    if k2 == 0:
                        a["OnExit"] = P(st.sampled_from(["success", "cancel", "error", "suspend"]))
                    elif k2 == 1:
                        a["Sequence"] = str(P(st.integers(1, 1299)))
                    else:
                        a[P(st.sampled_from(["Before", "After"]))] = P(st.sampled_from(["ExecuteAction", "ProgressDlg", "CostFinalize", "MaintenanceWelcomeDlg"] + every))
                    opt(P, a, "Condition", st.sampled_from(["Installed AND PATCH", "NOT Installed"]), 0.5)
                    if not any(x[1]["Dialog"] == a["Dialog"] for x in seqs):
                        seqs.append(["Show", a, [] if "Condition" in a or P(st.booleans()) else condtext(P, "A < B")])
                kids.append([P(st.sampled_from(["InstallUISequence", "InstallUISequence", "AdminUISequence"])), {}, seqs])
        return P(st.permutations(kids))

    def ui(i, dlgs, extra=True):
        kids = [uidialog(P, d, ids, texts, every) for d in dlgs]
        if extra:
            kids = some(kids, 0)
        return ["UI", {} if i is None else {"Id": i}, kids]

    ext = {"Common": ["Wix", {}, [["Fragment", {}, [ui("WixUI_Common", [])]]]]}
    for d in extd:
        ext[d] = ["Wix", {}, [["Fragment", {}, [ui(None, [d], P(st.integers(0, 2)) == 0)]]]]
    for u in extu:
        ext[u] = ["Wix", {}, [["Fragment", {}, [ui(u, [])] + ([["UIRef", {"Id": P(st.sampled_from(allu))}, []]] if P(st.booleans()) else [])]]]
    docs = list(base["docs"])
    mine = []
    left = list(own)
    for u in ownu or [None]:
        n = len(left) if u == (ownu or [None])[-1] else P(st.integers(0, len(left)))
        mine.append(["Fragment", {}, [ui(u, left[:n])]])
        left = left[n:]
    for fr in mine:
        if P(st.booleans()):
            docs.insert(P(st.integers(0, len(docs))), ["Wix", {}, [fr]])
        else:
            i = P(st.integers(0, len(docs) - 1))
            docs[i] = [docs[i][0], docs[i][1], docs[i][2] + [fr]]
    for d in docs:
        for k in d[2]:
            if k[0] == "Product":
                for u in allu:
                    if P(st.integers(0, 2)) == 0:
                        k[2].append(["UIRef", {"Id": u}, []])
    return {"docs": docs, "files": files, "arch": base["arch"], "ext": None if P(st.integers(0, 19)) == 13 else ext}


# -- running wixl and comparing


def content(spec):
    seed, size = spec
    if seed == "text":
        return size.encode()
    r = random.Random(seed)
    if seed % 3 == 0:
        return r.randbytes(size)
    return (r.randbytes(7) * (size // 7 + 1))[:size]


def write_case(d, case):
    """Writes sources; returns the command line's input files and a function that looks up sources."""
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    data = {}
    for n, spec in case["files"].items():
        data[n] = content(spec)
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "wb").write(data[n])
    ins = []
    for i, doc in enumerate(case["docs"]):
        n = "in%d.wxs" % i
        open(os.path.join(d, n), "w", encoding="utf-8").write('<?xml version="1.0" encoding="utf-8"?>\n' + wixref.xml(doc) + "\n")
        ins.append(n)

    return ins, lambda n: data.get(os.path.normpath(n))


def build(env, d, case, out="out.msi", extra=()):
    ins, look = write_case(d, case)
    cmd = [env.p.wixl, "-o", out]
    if case.get("arch"):
        cmd += ["-a", case["arch"]]
    r = tools.run(cmd + list(extra) + ins, cwd=d, env=WENV)
    return r, look


WENV = {}


def reference(case, look, ui=None):
    return Compiler(case["docs"], look, arch=case.get("arch") or "x86", ui=ui).compile()


def is_guid(s):
    return isinstance(s, str) and len(s) == 38 and s[0] == "{" and s[37] == "}" and all(c in "0123456789ABCDEF-" for c in s[1:37]) and [i for i, c in enumerate(s) if c == "-"] == [9, 14, 19, 24]


def parse(path, what="package"):
    try:
        return msifmt.read(open(path, "rb").read())
    except cfb.Bad as e:
        raise Violation("%s is damaged: %s" % (what, e))


def actual_rows(f, name):
    cols, rows = f.tables[name]
    return [dict(zip([c[0] for c in cols], r)) for r in rows]


def check_schema(f, ref):
    for name, want in ref.cols.items():
        if name not in f.tables:
            if not ref.t[name]:
                raise Violation("table %s is missing" % name)
            raise Violation("table %s is missing, %d rows are lost" % (name, len(ref.t[name])))
        cols = f.tables[name][0]
        got = []
        for c, t in cols:
            k = msifmt.kind_of(t)
            got.append((c, (k + "%d" % (t & 0xff) if k == "s" else k) + ("!" if t & 0x2000 else "") + ("?" if t & 0x1000 else "") + ("~" if t & 0x200 else "")))
        norm = lambda t: "".join(sorted(t))
        if [(n, norm(t)) for n, t in got] != [(n, norm(t)) for n, t in want]:
            raise Violation("columns of %s are %r, not %r" % (name, got, want))
    for name in f.tables:
        if name not in ref.cols and not name.startswith("_"):
            raise Violation("unexpected table %s" % name)


def eq(want, got):
    if want is RAND:
        return is_guid(got)
    return want == got


def check_table(f, ref, name, skip=()):
    want = ref.t[name]
    got = actual_rows(f, name)
    keys = [c for c, t in ref.cols[name] if "!" in t]
    left = list(got)
    for w in want:
        hit = None
        for g in left:
            if all(eq(w[k], g[k]) for k in keys):
                hit = g
                break
        if hit is None:
            raise Violation("%s: no row %r; there are %r" % (name, {k: v for k, v in w.items() if v is not None}, got))
        left.remove(hit)
        for c, v in w.items():
            if c in skip:
                continue
            if isinstance(v, bytes):
                sn = name + "." + w[keys[0]]
                if f.streams.get(sn) != v:
                    raise Violation("%s: stream %s has %r, not %r" % (name, sn, (f.streams.get(sn) or b"")[:40], v[:40]))
                continue
            if not eq(v, hit[c]):
                raise Violation("%s: row %r has %s = %r, expected %r" % (name, {k: w[k] for k in keys}, c, hit[c], v))
    if left:
        raise Violation("%s: unexpected rows %r" % (name, left))


def check_payload(f, ref, d):
    """Files, sequences, media and cabinets agree and the cabinets hold the bytes."""
    rows = {r["File"]: r for r in actual_rows(f, "File")}
    last = 0
    media = sorted(actual_rows(f, "Media"), key=lambda r: r["DiskId"])
    for r in sorted(media, key=lambda r: (r["LastSequence"], r["DiskId"] not in ref.disk.values(), r["DiskId"])):
        disk = r["DiskId"]
        cabname, emb = ref.media[disk]
        mine = [i for i, x in ref.disk.items() if x == disk]
        if emb:
            data = f.streams.get(cabname)
            if data is None:
                raise Violation("no stream %s; there are %s" % (cabname, sorted(f.streams)))
        elif os.path.exists(os.path.join(d, cabname)):
            data = open(os.path.join(d, cabname), "rb").read()
            if cabname in f.streams:
                raise Violation("cabinet %s is not to be embedded" % cabname)
        else:
            raise Violation("cabinet %s is not written: %s" % (cabname, sorted(os.listdir(d))))
        try:
            ents = cab.read(data)
        except (cab.Bad, ValueError, IndexError) as e:
            raise Violation("cabinet %s is damaged: %s" % (cabname, e))
        got = sorted(rows[i]["Sequence"] for i in mine)
        if ents is not None:
            names = [e.name for e in ents]
            if sorted(names) != sorted(mine):
                raise Violation("cabinet %s holds %r, not %r" % (cabname, sorted(names), sorted(mine)))
            for e in ents:
                if e.data != ref.payload[e.name]:
                    raise Violation("file %s in the cabinet: %d bytes, not the %d of its source" % (e.name, len(e.data), len(ref.payload[e.name])))
            if [rows[n]["Sequence"] for n in names] != sorted(rows[n]["Sequence"] for n in names):
                raise Violation("order in cabinet %s differs from the sequence numbers" % cabname)
        if len(set(got)) != len(got) or got and (got[0] <= last or got[-1] > r["LastSequence"]):
            raise Violation("files of disk %d have sequences %r, media ends at %r after %r" % (disk, got, r["LastSequence"], last))
        last = r["LastSequence"]


def seq_expected(ref, name):
    return ref.seq[name]


def check_sequences(f, ref):
    for name, seq in ref.seq.items():
        got = {r["Action"]: r for r in actual_rows(f, name)}
        for a, s in seq.items():
            if a not in got:
                if not s["user"] and not s.get("std"):
                    continue
                raise Violation("%s: action %s is missing" % (name, a))
            g = got[a]
            if "num" in s and g["Sequence"] != s["num"]:
                raise Violation("%s: %s has number %r, expected %d" % (name, a, g["Sequence"], s["num"]))
            if s["user"] or s.get("std"):
                if g["Condition"] != (s["cond"] or None) and not (not s["user"] and referenced(seq, a) and g["Condition"] is None):
                    raise Violation("%s: %s has condition %r, expected %r" % (name, a, g["Condition"], s["cond"]))
            if not isinstance(g["Sequence"], int) or g["Sequence"] < -4:
                raise Violation("%s: %s has number %r" % (name, a, g["Sequence"]))
        for a in got:
            if a not in seq:
                raise Violation("%s: unexpected action %s" % (name, a))
        bad = order_errors(seq, {a: r["Sequence"] for a, r in got.items()})
        if bad and feasible(seq):
            raise Violation("%s: %s; %r" % (name, "; ".join(bad), {a: r["Sequence"] for a, r in sorted(got.items(), key=lambda x: x[1]["Sequence"])}))


def referenced(seq, a):
    return any(a in s["after"] + s["before"] for s in seq.values())


def edges(seq):
    for a, s in seq.items():
        for b in s["after"]:
            yield b, a
        for b in s["before"]:
            yield a, b


def order_errors(seq, num):
    out = []
    for x, y in edges(seq):
        if x in num and y in num and num[x] >= 0 and num[y] >= 0 and not num[x] < num[y]:
            out.append("%s (%d) is not before %s (%d)" % (x, num[x], y, num[y]))
    return out


def contradictory(seq):
    """May the order of this sequence be refused?"""
    num = {a: s.get("num", 1) for a, s in seq.items()}
    return not feasible(seq) or any(num[x] < 0 or num[y] < 0 for x, y in edges(seq))


def feasible(seq):
    """Is there any assignment of numbers?"""
    lo = {a: s.get("num", 1) for a, s in seq.items()}
    es = [(x, y) for x, y in edges(seq) if lo[x] >= 0 and lo[y] >= 0]
    for i in range(len(seq) + 1):
        ch = False
        for x, y in es:
            if lo[y] <= lo[x]:
                if "num" in seq[y]:
                    return False
                lo[y] = lo[x] + 1
                ch = True
        if not ch:
            return all(lo[x] < lo[y] for x, y in es)
    return False


def check_suminfo(f, case, ref):
    """The summary information stream against the Product and Package elements."""
    prod = pk = None
    for d in case["docs"]:
        for k in d[2]:
            if k[0] == "Product":
                prod = {a: wixref.dollars(v) for a, v in k[1].items()}
                for x in k[2]:
                    if x[0] == "Package":
                        pk = {a: wixref.dollars(v) for a, v in x[1].items()}
    if msifmt.SUMMARY not in f.streams:
        raise Violation("no summary information")
    s = suminfo.read(f.streams[msifmt.SUMMARY], "summary information")
    x86 = (case.get("arch") or "x86") in ("x86", "intel")
    want = {2: "Installation Database", 3: pk.get("Description", prod["Name"]), 4: prod["Manufacturer"], 5: pk.get("Keywords", "Installer"),
            6: pk.get("Comments", "This installer database contains the logic and data required to install %s." % prod["Name"]),
            7: ("Intel" if x86 else "x64") + ";1033", 14: int(pk.get("InstallerVersion", "100" if x86 else "200")),
            15: 2 | (8 if pk.get("InstallScope") == "perUser" else 0), 19: 2, 1: int(prod.get("Codepage", "1252"))}
    for p, v in want.items():
        if s.get(p) != v:
            raise Violation("summary property %d is %r, expected %r" % (p, s.get(p), v))
    if not is_guid(s.get(9)):
        raise Violation("package code is %r" % s.get(9))
    now = (time.time() + 11644473600) * 10**7
    for p in (12, 13):
        if not isinstance(s.get(p), int) or abs(s[p] - now) > 600 * 10**7:
            raise Violation("summary property %d is %r" % (p, s.get(p)))


def tree_shrink(case):
    """Smaller documents: without elements, without attributes, with simpler values."""
    import copy
    docs = case["docs"]

    def paths(n, pre):
        for i, k in enumerate(n[2] if len(n) > 2 else []):
            if isinstance(k, str) or k[0].startswith("#"):
                continue
            yield pre + [i]
            yield from paths(k, pre + [i])

    def at(docs, p):
        n = docs[p[0]]
        for i in p[1:]:
            n = n[2][i]
        return n
    if len(docs) > 1:
        for i in range(len(docs)):
            yield dict(case, docs=docs[:i] + docs[i + 1:])
        m = copy.deepcopy(docs)
        yield dict(case, docs=[["Wix", {}, [k for d in m for k in d[2]]]])
    allp = [p for i, d in enumerate(docs) for p in paths(d, [i])]
    for p in allp:
        m = copy.deepcopy(docs)
        par = at(m, p[:-1])
        del par[2][p[-1]]
        yield dict(case, docs=m)
    for p in allp:
        n = at(docs, p)
        for k in list(n[1]):
            if k in ("Id", "Guid", "UpgradeCode", "Language", "Manufacturer"):
                continue
            m = copy.deepcopy(docs)
            del at(m, p)[1][k]
            yield dict(case, docs=m)
        for k, v in n[1].items():
            if k in ("Name", "Value", "Title", "Description", "Key", "Section") and len(v) > 1:
                m = copy.deepcopy(docs)
                at(m, p)[1][k] = "x"
                yield dict(case, docs=m)
    if case.get("arch"):
        yield dict(case, arch=None)
    for n in case["files"]:
        if case["files"][n][0] != "text" and case["files"][n][1] > 5:
            yield dict(case, files=dict(case["files"], **{n: [1, 5]}))
