"""A reference compiler from WiX documents to installer tables, written from the documentation of WiX and of the MSI tables.

A document is a nested list: [tag, {attribute: value}, [child | text]]; ["#cdata", text] and ["#comment", text] also occur.
compile() gives the tables a package must have; it raises Reject where no package can be built."""
import hashlib, posixpath, struct
from xml.sax.saxutils import escape, quoteattr


class Reject(Exception):
    """The document is in error: wixl must say so."""


class Rand:
    """Any generated GUID."""


RAND = Rand()
NS = "http://schemas.microsoft.com/wix/2006/wi"

# the tables of every package, as documented for Windows Installer: name type, ! key, ? nullable, ~ localizable
SCHEMA_TXT = """
AdminExecuteSequence: Action s72! Condition s255? Sequence i2?
AdminUISequence: Action s72! Condition s255? Sequence i2?
AdvtExecuteSequence: Action s72! Condition s255? Sequence i2?
InstallExecuteSequence: Action s72! Condition s255? Sequence i2?
InstallUISequence: Action s72! Condition s255? Sequence i2?
Directory: Directory s72! Directory_Parent s72? DefaultDir s255~
Media: DiskId i2! LastSequence i4 DiskPrompt s64?~ Cabinet s255? VolumeLabel s32? Source s72?
Property: Property s72! Value s0~
Icon: Name s72! Data b
Binary: Name s72! Data b
Component: Component s72! ComponentId s38? Directory_ s72 Attributes i2 Condition s255? KeyPath s72?
Feature: Feature s38! Feature_Parent s38? Title s64?~ Description s255?~ Display i2? Level i2 Directory_ s72? Attributes i2
FeatureComponents: Feature_ s38! Component_ s72!
RemoveFile: FileKey s72! Component_ s72 FileName s255?~ DirProperty s72 InstallMode i2
Registry: Registry s72! Root i2 Key s255~ Name s255?~ Value s0?~ Component_ s72
ServiceControl: ServiceControl s72! Name s255~ Event i2 Arguments s255?~ Wait i2? Component_ s72
ServiceInstall: ServiceInstall s72! Name s255 DisplayName s255?~ ServiceType i4 StartType i4 ErrorControl i4 LoadOrderGroup s255? Dependencies s255? StartName s255? Password s255? Arguments s255? Component_ s72 Description s255?~
File: File s72! Component_ s72 FileName s255~ FileSize i4 Version s72? Language s20? Attributes i2? Sequence i4
IniFile: IniFile s72! FileName s255~ DirProperty s72? Section s255~ Key s255~ Value s255~ Action i2 Component_ s72
RemoveIniFile: RemoveIniFile s72! FileName s255~ DirProperty s72? Section s255~ Key s255~ Value s255?~ Action i2 Component_ s72
Shortcut: Shortcut s72! Directory_ s72 Name s128~ Component_ s72 Target s72 Arguments s255? Description s255?~ Hotkey i2? Icon_ s72? IconIndex i2? ShowCmd i2? WkDir s72? DisplayResourceDLL s255? DisplayResourceId i2? DescriptionResourceDLL s255? DescriptionResourceId i2?
Upgrade: UpgradeCode s38! VersionMin s20!? VersionMax s20!? Language s255!? Attributes i4! Remove s255? ActionProperty s72
LaunchCondition: Condition s255! Description s255~
AppSearch: Property s72! Signature_ s72!
Signature: Signature s72! FileName s255 MinVersion s20? MaxVersion s20? MinSize i4? MaxSize i4? MinDate i4? MaxDate i4? Languages s255?
CustomAction: Action s72! Type i2 Source s72? Target s255? ExtendedType i4?
ActionText: Action s72! Description s255?~ Template s255?~
RegLocator: Signature_ s72! Root i2 Key s255 Name s255? Type i2?
CreateFolder: Directory_ s72! Component_ s72!
MsiFileHash: File_ s72! Options i2 HashPart1 i4 HashPart2 i4 HashPart3 i4 HashPart4 i4
Error: Error i2! Message s0?~
"""
UI_SCHEMA_TXT = """
CheckBox: Property s72! Value s64?
Control: Dialog_ s72! Control s50! Type s20 X i2 Y i2 Width i2 Height i2 Attributes i4? Property s72? Text s0?~ Control_Next s50? Help s50?~
ControlCondition: Dialog_ s72! Control_ s50! Action s50! Condition s255!
ControlEvent: Dialog_ s72! Control_ s50! Event s50! Argument s255! Condition s255!? Ordering i2?
Dialog: Dialog s72! HCentering i2 VCentering i2 Width i2 Height i2 Attributes i4? Title s128?~ Control_First s50 Control_Default s50? Control_Cancel s50?
EventMapping: Dialog_ s72! Control_ s50! Event s50! Attribute s50
ListBox: Property s72! Order i2! Value s64 Text s64?~
RadioButton: Property s72! Order i2! Value s64 X i2 Y i2 Width i2 Height i2 Text s0?~ Help s50?~
TextStyle: TextStyle s72! FaceName s32 Size i2 Color i4? StyleBits i2?
UIText: Key s72! Text s255?~
"""


def _schema(txt):
    out = {}
    for l in txt.strip().splitlines():
        name, cols = l.split(": ")
        w = cols.split()
        out[name] = [(w[i], w[i + 1]) for i in range(0, len(w), 2)]
    return out


SCHEMA = _schema(SCHEMA_TXT)
UI_SCHEMA = _schema(UI_SCHEMA_TXT)

DEFAULT_SEQ = dict(l.rsplit(None, 1) for l in """
InstallInitialize 1500
InstallExecute 6500
InstallExecuteAgain 6550
InstallFinalize 6600
InstallFiles 4000
InstallAdminPackage 3900
FileCost 900
CostInitialize 800
CostFinalize 1000
InstallValidate 1400
ExecuteAction 1300
CreateShortcuts 4500
MsiPublishAssemblies 6250
PublishComponents 6200
PublishFeatures 6300
PublishProduct 6400
RegisterClassInfo 4600
RegisterExtensionInfo 4700
RegisterMIMEInfo 4900
RegisterProgIdInfo 4800
AllocateRegistrySpace 1550
AppSearch 50
BindImage 4300
CCPSearch 500
CreateFolders 3700
DeleteServices 2000
DuplicateFiles 4210
ExitDialog -1
FatalError -3
FindRelatedProducts 25
InstallODBC 5400
InstallServices 5800
MaintenanceWelcomeDlg 1295
MsiConfigureServices 5850
IsolateComponents 950
LaunchConditions 100
MigrateFeatureStates 1200
MoveFiles 3800
PatchFiles 4090
PrepareDlg 49
ProcessComponents 1600
ProgressDlg 1299
RegisterComPlus 5700
RegisterFonts 5300
RegisterProduct 6100
RegisterTypeLibraries 5500
RegisterUser 6000
RemoveDuplicateFiles 3400
RemoveEnvironmentStrings 3300
RemoveFiles 3500
RemoveFolders 3600
RemoveIniValues 3100
RemoveODBC 2400
RemoveRegistryValues 2600
RemoveShortcuts 3200
ResumeDlg 1296
RMCCPSearch 600
SelfRegModules 5600
SelfUnregModules 2200
SetODBCFolders 1100
StartServices 5900
StopServices 1900
MsiUnpublishAssemblies 1750
UnpublishComponents 1700
UnpublishFeatures 1800
UnregisterClassInfo 2700
UnregisterComPlus 2100
UnregisterExtensionInfo 2800
UnregisterFonts 2500
UnregisterMIMEInfo 3000
UnregisterProgIdInfo 2900
UnregisterTypeLibraries 2300
UserExit -2
ValidateProductID 700
WelcomeDlg 1297
WelcomeEulaDlg 1298
WriteEnvironmentStrings 5200
WriteIniValues 5100
WriteRegistryValues 5000
""".strip().splitlines())
DEFAULT_SEQ = {k: int(v) for k, v in DEFAULT_SEQ.items()}
DEFAULT_COND = {"InstallExecute": "NOT Installed", "InstallExecuteAgain": "NOT Installed", "AllocateRegistrySpace": "NOT Installed",
                "CCPSearch": "NOT Installed", "RMCCPSearch": "NOT Installed", "DeleteServices": "VersionNT", "InstallServices": "VersionNT",
                "MsiConfigureServices": "VersionNT>=600", "StartServices": "VersionNT", "StopServices": "VersionNT"}


def xml(node, ind=0):
    """Renders a document."""
    if isinstance(node, str):
        return escape(node)
    tag = node[0]
    if tag == "#cdata":
        return "<![CDATA[" + node[1] + "]]>"
    if tag == "#comment":
        return "<!--" + node[1] + "-->"
    if tag == "#pi":
        return "<?" + node[1] + "?>"
    attrs, kids = node[1], node[2] if len(node) > 2 else []
    s = "<" + tag + ("" if tag != "Wix" else ' xmlns="%s"' % NS)
    for k, v in attrs.items():
        s += " " + k + "=" + quoteattr(v, {"\n": "&#10;", "\t": "&#9;", "\r": "&#13;"})
    if not kids:
        return s + "/>"
    text = any(isinstance(k, str) or k[0] == "#cdata" for k in kids)
    if text:
        return s + ">" + "".join(xml(k) for k in kids) + "</" + tag + ">"
    pad = "\n" + "  " * (ind + 1)
    return s + ">" + "".join(pad + xml(k, ind + 1) for k in kids) + "\n" + "  " * ind + "</" + tag + ">"


def yes(v, default=False):
    if v is None:
        return default
    return v[:1] in ("y", "Y")


def braces(s):
    return s if s.startswith("{") else "{" + s + "}"


def guid(s):
    return RAND if s == "*" else braces(s).upper()


def uuid5(name):
    h = bytearray(hashlib.sha1(bytes.fromhex("de73ba5aed964a66ba1bfbb44e659ad7") + name.encode()).digest()[:16])
    h[6] = h[6] & 15 | 0x50
    h[8] = h[8] & 0x3f | 0x80
    x = h.hex().upper()
    return "{%s-%s-%s-%s-%s}" % (x[:8], x[8:12], x[12:16], x[16:20], x[20:])


def gen_id(prefix, *args):
    return prefix + hashlib.sha1("|".join([a for a in args if a is not None] + [""] * args.count(None)).encode()).hexdigest()[:32].upper()


def dollars(s):
    """What the preprocessor makes of a text without variables."""
    return s.replace("$$", "$")


class Node:
    def __init__(self, raw, parent):
        self.tag, self.a = raw[0], {k: dollars(v) for k, v in raw[1].items()}
        self.parent = parent
        self.kids = []
        self.text = ""
        for k in raw[2] if len(raw) > 2 else []:
            if isinstance(k, str):
                self.text += dollars(k)
            elif k[0] == "#cdata":
                self.text += dollars(k[1])
            elif k[0] in ("#comment", "#pi"):
                pass
            else:
                self.kids.append(Node(k, self))

    def g(self, k, d=None):
        return self.a.get(k, d)

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


class Out:
    pass


REGROOT = {"hkcr": 0, "hkcu": 1, "hklm": 2, "hku": 3, "hkmu": 4}
MODE = {"install": 1, "uninstall": 2, "both": 3}


def mode(v):
    if v not in MODE:
        raise Reject("bad install mode %r" % (v,))
    return MODE[v]


class Compiler:
    def __init__(self, docs, files, arch="x86", ui=None):
        """files: what finding a source gives: name -> bytes or None; ui: documents of the UI extension by name"""
        if ui is not None:
            docs = [ui["CancelDlg"], ui["Common"]] + docs
        self.docs = [Node(d, None) for d in docs]
        self.files = files
        self.arch = arch
        self.ui = ui
        self.t = {n: [] for n in list(SCHEMA) + (list(UI_SCHEMA) if ui is not None else [])}
        self.cols = dict(SCHEMA, **(UI_SCHEMA if ui is not None else {}))
        self.payload = {}       # file id -> bytes, for files that are installed
        self.disk = {}          # file id -> disk
        self.media = {}         # disk -> (cabinet, embedded)
        self.secure = []
        self.byid = {}
        self.seq = {n: {} for n in SCHEMA if n.endswith("Sequence")}
        self.in_feature = {}
        self.late = []
        self.upgrade_rm = False
        self.publish_order = 1
        for d in self.docs:
            self.register(d)

    def register(self, d):
        for n in d.walk():
            i = n.g("Id")
            if i is not None:
                self.byid.setdefault((n.tag, i), n)

    def wants(self, tag, i):
        """Something the extension provides if the documents do not."""
        if (tag, i) in self.byid:
            return
        if self.ui is None or i not in self.ui:
            raise Reject("no %s %s" % (tag, i))
        d = Node(self.ui[i], None)
        self.register(d)
        self.docs.append(d)         # compiled after all others

    def add(self, table, **row):
        if table not in self.cols:
            return row      # of the UI extension, which is not enabled
        cols = [c for c, _ in self.cols[table]]
        assert not set(row) - set(cols), (table, row)
        vals = {c: row.get(c) for c in cols}
        for c in cols:
            if vals[c] == "":
                vals[c] = None
        self.t[table].append(vals)
        return vals

    def find(self, tag, i):
        n = self.byid.get((tag, i))
        if n is None:
            raise Reject("no %s %s" % (tag, i))
        return n

    def source(self, name):
        d = self.files(name)
        if d is None:
            raise Reject("no file %s" % name)
        return d

    def directory_of(self, comp):
        p = comp.parent
        if p.tag == "Directory":
            return p.g("Id")
        if p.tag == "DirectoryRef":
            return self.find("Directory", p.g("Id")).g("Id")
        if p.tag == "ComponentGroup":
            if p.g("Directory") is None:
                raise Reject("component group without directory")
            return self.find("Directory", p.g("Directory")).g("Id")
        raise Reject("component in %s" % p.tag)

    def dirpath(self, d):
        names, seen = [], []
        while True:
            if d in seen:
                raise Reject("directory within itself")
            seen.append(d)
            names.append(d.g("Name") if d.g("Name") is not None else d.g("Id"))
            p = d.parent
            if p.tag == "DirectoryRef":
                p = self.find("Directory", p.g("Id"))
            if p.tag != "Directory":
                break
            d = p
        return "/".join(reversed(names))

    def reg_parts(self, n):
        """component, root, key of a RegistryValue"""
        p = n.parent
        if p.tag == "RegistryKey":
            key = p.g("Key") + ("\\" + n.g("Key") if n.g("Key") is not None else "")
            root = n.g("Root") if n.g("Root") is not None else p.g("Root")
            return p.parent, root, key
        return p, n.g("Root"), n.g("Key")

    def reg_id(self, n):
        if n.g("Id") is not None:
            return n.g("Id")
        comp, root, key = self.reg_parts(n)
        return gen_id("reg", comp.g("Id"), root, key, n.g("Name").lower() if n.g("Name") is not None else None)

    def win64(self, n):
        if n.g("Win64") is not None:
            return yes(n.g("Win64"))
        return self.arch in ("x64", "ia64", "intel64")

    # -- elements

    def visit(self, n):
        f = getattr(self, "v_" + n.tag, None)
        if n.tag == "Component":
            self.v_Component(n)
            return
        if n.tag == "Feature":
            self.v_Feature(n)
            for k in n.kids:
                self.visit(k)
            return
        for k in n.kids:
            self.visit(k)
        if f:
            f(n)

    def v_Product(self, n):
        P = self.t["Property"]
        for k, v in (("Manufacturer", n.g("Manufacturer")), ("ProductLanguage", n.g("Language")), ("ProductCode", guid(n.g("Id"))),
                     ("ProductName", n.g("Name")), ("ProductVersion", n.g("Version")), ("UpgradeCode", braces(n.g("UpgradeCode")))):
            self.add("Property", Property=k, Value=v)

    def v_Package(self, n):
        if n.g("InstallScope") == "perMachine":
            self.add("Property", Property="ALLUSERS", Value="1")
        elif n.g("InstallScope") not in (None, "perUser"):
            raise Reject("InstallScope")

    def v_Property(self, n):
        if n.g("Value") is not None:
            self.add("Property", Property=n.g("Id"), Value=n.g("Value"))

    def v_RegistrySearch(self, n):
        if n.g("Root").lower() not in REGROOT:
            raise Reject("registry root")
        t = {"directory": 0, "file": 1, "raw": 2}.get(n.g("Type").lower())
        if t is None:
            raise Reject("search type")
        self.add("AppSearch", Property=n.parent.g("Id"), Signature_=n.g("Id"))
        self.add("RegLocator", Signature_=n.g("Id"), Root=REGROOT[n.g("Root").lower()], Key=n.g("Key"), Name=n.g("Name"), Type=t | (16 if self.win64(n) else 0))

    def v_Media(self, n):
        emb = yes(n.g("EmbedCab"))
        self.media[int(n.g("Id"))] = (n.g("Cabinet"), emb)
        self.add("Media", DiskId=int(n.g("Id")), LastSequence=None, DiskPrompt=n.g("DiskPrompt"), Cabinet=("#" if emb else "") + n.g("Cabinet"))

    def v_MediaTemplate(self, n):
        emb = yes(n.g("EmbedCab"))
        self.media[1] = ("cab1.cab", emb)
        self.add("Media", DiskId=1, LastSequence=None, Cabinet=("#" if emb else "") + "cab1.cab")

    def v_Icon(self, n):
        self.add("Icon", Name=n.g("Id"), Data=self.source(n.g("SourceFile")))

    def v_Binary(self, n):
        self.add("Binary", Name=n.g("Id"), Data=self.source(n.g("SourceFile")))

    def v_Directory(self, n):
        p = n.parent
        if p.tag in ("Product", "Fragment"):
            if n.g("Id") != "TARGETDIR":
                raise Reject("root directory")
            par = None
        elif p.tag == "DirectoryRef":
            par = self.find("Directory", p.g("Id")).g("Id")
        else:
            par = p.g("Id")
        self.dirpath(n)
        self.add("Directory", Directory=n.g("Id"), Directory_Parent=par, DefaultDir=n.g("Name", "."))

    def v_Component(self, n):
        keys = []       # (element, id, path name)
        for k in n.kids:
            if k.tag == "File":
                keys.append((k, k.g("Id"), k.g("Name") if k.g("Name") is not None else posixpath.basename(k.g("Source"))))
            elif k.tag == "RegistryValue":
                keys.append((k, self.reg_id(k), None))
            elif k.tag == "RegistryKey":
                for v in k.kids:
                    keys.append((v, self.reg_id(v), None))
        for k in n.kids:
            self.visit(k)
        marked = [k for k in keys if yes(k[0].g("KeyPath"))]
        if len(marked) > 1:
            raise Reject("two key paths")
        key = marked[0] if marked else keys[0] if keys else None
        d = self.directory_of(n)
        attr = 0
        if key and key[0].tag == "RegistryValue":
            attr |= 4
        if self.win64(n):
            attr |= 256
        if yes(n.g("Permanent")):
            attr |= 16
        g = n.g("Guid")
        if g == "*":
            if key is None:
                raise Reject("no key to make a GUID from")
            if key[0].tag == "RegistryValue":
                comp, root, rk = self.reg_parts(key[0])
                kp = root + "/" + rk
            else:
                kp = key[2]
            cid = n.g("Id")
            if n.parent.tag != "ComponentGroup":
                cid = self.dirpath(self.find("Directory", d)) + "/" + cid
            g = uuid5(cid + "/" + kp)
            if key[0].parent.tag == "RegistryKey":
                g = RAND        # the path of a nested value is not documented: any GUID
        elif g == "":
            g = None
        else:
            g = guid(g)
        self.add("Component", Component=n.g("Id"), ComponentId=g, Directory_=d, Attributes=attr, KeyPath=key[1] if key else None)
        for k, i, _ in keys:
            if k.tag == "File" and k.g("CompanionFile") is not None and key and key[0] is k:
                raise Reject("companion file is key")

    def v_File(self, n):
        name = n.g("Name") if n.g("Name") is not None else posixpath.basename(n.g("Source"))
        data = self.source(n.g("Source") if n.g("Source") is not None else name)
        comp = n.parent.g("Id")
        ver = n.g("CompanionFile") if n.g("CompanionFile") is not None else n.g("DefaultVersion")
        self.add("File", File=n.g("Id"), Component_=comp, FileName=name, FileSize=len(data), Version=ver, Attributes=512, Sequence=None)
        self.late.append(("file", n, comp, data, ver))

    def v_CreateFolder(self, n):
        # shortcuts within it were visited before
        self.add("CreateFolder", Directory_=self.directory_of(n.parent), Component_=n.parent.g("Id"))

    def v_RemoveFolder(self, n):
        self.add("RemoveFile", FileKey=n.g("Id"), Component_=n.parent.g("Id"), DirProperty=self.directory_of(n.parent), InstallMode=mode(n.g("On")))

    def v_IniFile(self, n):
        acts = {"addLine": 0, "createLine": 1, "removeLine": 2, "addTag": 3, "removeTag": 4}
        act = {k.lower(): v for k, v in acts.items()}.get(n.g("Action", "").lower())
        if act is None or n.g("Action") not in acts and n.g("Action") != n.g("Action").lower():
            raise Reject("ini action")
        row = dict(FileName=n.g("Name"), DirProperty=n.g("Directory"), Section=n.g("Section"), Key=n.g("Key"), Value=n.g("Value"), Action=act, Component_=n.parent.g("Id"))
        if act in (0, 1, 3):
            self.add("IniFile", IniFile=n.g("Id"), **row)
        else:
            self.add("RemoveIniFile", RemoveIniFile=n.g("Id"), **row)

    def v_RegistryValue(self, n):
        comp, root, key = self.reg_parts(n)
        if root is None or root.lower() not in REGROOT:
            raise Reject("registry root")
        v = n.g("Value")
        t = n.g("Type")
        if t == "integer":
            v = "#" + v
        elif t == "string":
            v = "#" + v if v.startswith("#") else v
        elif t == "binary":
            v = v if v.startswith("#x") else "#x" + v
        elif t == "expandable":
            v = v if v.startswith("#%") else "#%" + v
        elif t != "multistring":
            raise Reject("registry type")
        self.add("Registry", Registry=self.reg_id(n), Root=REGROOT[root.lower()], Key=key, Name=n.g("Name"), Value=v, Component_=comp.g("Id"))

    def v_ProgId(self, n):
        comp = n.parent.g("Id")
        self.add("Registry", Registry=gen_id("reg", comp, n.g("Id")), Root=0, Key=n.g("Id"), Value=n.g("Description"), Component_=comp)

    def v_Extension(self, n):
        prog = n.parent
        comp = prog.parent.g("Id")
        e = n.g("Id")
        self.add("Registry", Registry=gen_id("reg", comp, e, "Content Type"), Root=0, Key="." + e, Name="Content Type", Value=n.g("ContentType"), Component_=comp)
        self.add("Registry", Registry=gen_id("reg", comp, e), Root=0, Key="." + e, Value=prog.g("Id"), Component_=comp)

    def v_Verb(self, n):
        prog = n.parent.parent
        comp = prog.parent.g("Id")
        key = prog.g("Id") + "\\shell\\open"
        self.add("Registry", Registry=gen_id("reg", comp, key), Root=0, Key=key, Value="Open", Component_=comp)
        key += "\\command"
        self.add("Registry", Registry=gen_id("reg", comp, key), Root=0, Key=key, Value='"[#%s]" %s' % (n.g("TargetFile"), n.g("Argument")), Component_=comp)

    def v_MIME(self, n):
        ext = n.parent
        comp = ext.parent.parent.g("Id")
        key = "MIME\\Database\\Content Type\\" + n.g("ContentType")
        self.add("Registry", Registry=gen_id("reg", comp, key, "Extension"), Root=0, Key=key, Name="Extension", Value="." + ext.g("Id"), Component_=comp)

    def v_Shortcut(self, n):
        p = n.parent
        comp = p.parent if p.tag in ("File", "CreateFolder") else p
        d = n.g("Directory")
        if d is None:
            d = self.directory_of(comp)
        row = self.add("Shortcut", Shortcut=n.g("Id"), Directory_=d, Name=n.g("Name"), Component_=comp.g("Id"), Target=n.g("Target"),
                       Arguments=n.g("Arguments"), Description=n.g("Description"), Icon_=n.g("Icon"), WkDir=n.g("WorkingDirectory"),
                       IconIndex=int(n.g("IconIndex")) if n.g("IconIndex") is not None else None)
        if n.g("Target") is None:
            self.late.append(("shortcut", row, comp.g("Id")))

    def v_ServiceInstall(self, n):
        start = {"auto": 2, "demand": 3, "disabled": 4}.get(n.g("Start"))
        err = {"ignore": 0, "normal": 1, "critical": 3}.get(n.g("ErrorControl"))
        typ = {"ownProcess": 16, "shareProcess": 32}.get(n.g("Type"))
        if None in (start, err, typ):
            raise Reject("service")
        if yes(n.g("Interactive")):
            typ |= 256
        deps = "".join(("+" if yes(k.g("Group")) else "") + k.g("Id") + "[~]" for k in n.kids if k.tag == "ServiceDependency")
        desc = "[~]" if yes(n.g("EraseDescription")) else n.g("Description")
        self.add("ServiceInstall", ServiceInstall=n.g("Id"), Name=n.g("Name"), DisplayName=n.g("DisplayName"), ServiceType=typ, StartType=start, ErrorControl=err,
                 LoadOrderGroup=n.g("LoadOrderGroup"), Dependencies=deps + "[~]" if deps else None, StartName=n.g("Account"), Password=n.g("Password"),
                 Arguments=n.g("Arguments"), Component_=n.parent.g("Id"), Description=desc)

    def v_ServiceControl(self, n):
        ev = 0
        for k, bit in (("Start", 1), ("Stop", 2), ("Remove", 8)):
            if n.g(k) is not None:
                m = mode(n.g(k))
                ev |= (bit if m & 1 else 0) | (bit << 4 if m & 2 else 0)
        args = [k.text for k in n.kids if k.tag == "ServiceArgument"]
        self.add("ServiceControl", ServiceControl=n.g("Id"), Name=n.g("Name"), Event=ev, Arguments="[~]".join(args) if args else None,
                 Wait=None if n.g("Wait") is None else int(yes(n.g("Wait"))), Component_=n.parent.g("Id"))

    def v_Feature(self, n):
        root = n.parent.tag != "Feature"
        if root:
            self.disp = 0
        d = n.g("Display")
        if d is None or d == "collapse":
            d = self.disp = (self.disp | 1) + 1
        elif d == "expand":
            d = self.disp = (self.disp + 1) | 1
        elif d == "hidden":
            d = 0
        else:
            d = int(d)
            if d:
                self.disp = d
        attr = 0

        def pick(a, m):
            nonlocal attr
            v = n.g(a)
            if v is None:
                return
            if v.lower() not in m:
                raise Reject(a)
            attr |= m[v.lower()]
        pick("InstallDefault", {"followparent": 2, "local": 0, "source": 1})
        pick("AllowAdvertise", {"no": 8, "system": 32, "yes": 0})
        pick("TypicalDefault", {"advertise": 4, "install": 0})
        pick("Absent", {"allow": 0, "disallow": 16})
        if attr & 12 == 12:
            raise Reject("advertise")
        self.add("Feature", Feature=n.g("Id"), Feature_Parent=None if root else n.parent.g("Id"), Title=n.g("Title"), Description=n.g("Description"), Display=d,
                 Level=int(n.g("Level", "1")), Directory_=n.g("ConfigurableDirectory"), Attributes=attr)

    def group_components(self, g, seen):
        if g in seen:
            raise Reject("group within itself")
        for k in g.kids:
            if k.tag == "Component":
                yield k.g("Id")
            elif k.tag == "ComponentRef":
                yield self.find("Component", k.g("Id")).g("Id")
            else:
                yield from self.group_components(self.find("ComponentGroup", k.g("Id")), seen + [g])

    def v_ComponentRef(self, n):
        c = self.find("Component", n.g("Id")).g("Id")
        if n.parent.tag == "Feature":
            self.feat(n.parent.g("Id"), c)

    def v_ComponentGroupRef(self, n):
        g = self.find("ComponentGroup", n.g("Id"))
        if n.parent.tag == "Feature":
            for c in self.group_components(g, []):
                self.feat(n.parent.g("Id"), c)
        else:
            list(self.group_components(g, []))

    def feat(self, f, c):
        l = self.in_feature.setdefault(c, [])
        if f not in l:
            l.append(f)
            self.add("FeatureComponents", Feature_=f, Component_=c)

    def v_Condition(self, n):
        self.add("LaunchCondition", Condition=n.text.strip(" \t\n\r"), Description=n.g("Message"))

    def v_UpgradeVersion(self, n):
        if n.g("Minimum") is None and n.g("Maximum") is None:
            raise Reject("upgrade without versions")
        attr = 0
        attr |= 1 if yes(n.g("MigrateFeatures")) else 0
        attr |= 2 if yes(n.g("OnlyDetect")) else 0
        attr |= 256 if yes(n.g("IncludeMinimum"), True) else 0
        attr |= 512 if yes(n.g("IncludeMaximum")) else 0
        self.add("Upgrade", UpgradeCode=guid(n.parent.g("Id")), VersionMin=n.g("Minimum"), VersionMax=n.g("Maximum"), Attributes=attr, ActionProperty=n.g("Property"))
        self.secure.append(n.g("Property"))

    def v_MajorUpgrade(self, n):
        p = n.parent
        code, ver = guid(p.g("UpgradeCode")), p.g("Version")
        down = n.g("AllowDowngrades") == "yes"
        self.add("Upgrade", UpgradeCode=code, VersionMin=ver, Attributes=1 if down else 2, ActionProperty="WIX_DOWNGRADE_DETECTED")
        self.secure.append("WIX_DOWNGRADE_DETECTED")
        if n.g("AllowSameVersionUpgrades") == "yes":
            self.add("Upgrade", UpgradeCode=code, VersionMin=ver, VersionMax=ver, Attributes=1 | 256 | 512, ActionProperty="WIX_SAME_VERSION_UPGRADE_DETECTED")
            self.secure.append("WIX_SAME_VERSION_UPGRADE_DETECTED")
        self.add("Upgrade", UpgradeCode=code, VersionMax=ver, Attributes=1, ActionProperty="WIX_UPGRADE_DETECTED")
        self.secure.append("WIX_UPGRADE_DETECTED")
        if n.g("DowngradeErrorMessage") is not None and not down:
            self.add("LaunchCondition", Condition="NOT WIX_DOWNGRADE_DETECTED", Description=n.g("DowngradeErrorMessage"))
        self.upgrade_rm = True
        s = self.seq["InstallExecuteSequence"].setdefault("RemoveExistingProducts", {"user": False, "after": [], "before": []})
        s["after"].append("InstallValidate")
        self.seq["InstallExecuteSequence"].setdefault("InstallValidate", {"user": False, "after": [], "before": []})

    def v_CustomAction(self, n):
        g = n.g
        if g("DllEntry") is not None:
            t, s, v = 1, g("BinaryKey"), g("DllEntry")
        elif g("JScriptCall") is not None:
            t, s, v = 5, g("BinaryKey"), g("JScriptCall")
        elif g("ExeCommand") is not None and g("FileKey") is None:
            t, s, v = 50, g("Property"), g("ExeCommand")
        elif g("ExeCommand") is not None:
            self.find("File", g("FileKey"))
            t, s, v = 18, g("FileKey"), g("ExeCommand")
        elif g("Property") is not None and g("Value") is not None:
            t, s, v = 51, g("Property"), g("Value")
        else:
            raise Reject("custom action")
        t |= {"firstSequence": 0x100, "oncePerProcess": 0x200, "clientRepeat": 0x300, "deferred": 0x400, "rollback": 0x500, "commit": 0x600}.get(g("Execute"), 0)
        t |= {"ignore": 0x40, "asyncWait": 0x80, "asyncNoWait": 0xc0}.get(g("Return"), 0)
        if t & 0x400 and not yes(g("Impersonate")):
            t |= 0x800
        self.add("CustomAction", Action=g("Id"), Type=t, Source=s, Target=v)

    def _action(self, n):
        table = {"AdvertiseExecuteSequence": "AdvtExecuteSequence"}.get(n.parent.tag, n.parent.tag)
        name = {"Custom": n.g("Action"), "Show": n.g("Dialog")}.get(n.tag, n.tag)
        seq = self.seq[table]
        s = seq.setdefault(name, {"user": False, "after": [], "before": []})
        if s["user"]:
            return
        s["user"] = True
        s["cond"] = None
        if n.g("Condition") is not None:
            s["cond"] = n.g("Condition")
        elif n.text:
            s["cond"] = n.text.strip(" \t\n\r")
        if n.g("OnExit") is not None:
            s["num"] = {"success": -1, "cancel": -2, "error": -3, "suspend": -4}[n.g("OnExit")]
            return
        if n.g("Sequence") is not None:
            s["num"] = int(n.g("Sequence"))
        if n.g("After") is not None:
            s["after"].append(n.g("After"))
            seq.setdefault(n.g("After"), {"user": False, "after": [], "before": []})
        if n.g("Before") is not None:
            s["before"].append(n.g("Before"))
            seq.setdefault(n.g("Before"), {"user": False, "after": [], "before": []})

    # -- user interface

    def v_UIText(self, n):
        self.add("UIText", Key=n.g("Id"), Text=n.g("Value"))

    def v_ProgressText(self, n):
        self.add("ActionText", Action=n.g("Action"), Description=n.text.strip(" \t\n\r"), Template=n.g("Template"))

    def v_TextStyle(self, n):
        color = None
        if any(n.g(k) is not None for k in ("Red", "Green", "Blue")):
            color = int(n.g("Red", "0")) + 256 * int(n.g("Green", "0")) + 65536 * int(n.g("Blue", "0"))
        bits = sum(b for k, b in (("Bold", 1), ("Italic", 2), ("Underline", 4), ("Strike", 8)) if yes(n.g(k)))
        self.add("TextStyle", TextStyle=n.g("Id"), FaceName=n.g("FaceName"), Size=int(n.g("Size")), Color=color, StyleBits=bits or None)

    def v_Dialog(self, n):
        attr = sum(b for k, b in (("Hidden", 1), ("Modeless", 2), ("NoMinimize", 4)) if not yes(n.g(k)))
        attr |= sum(b for k, b in (("KeepModeless", 16), ("TrackDiskSpace", 32), ("CustomPalette", 64), ("RightToLeft", 128), ("RightAligned", 256),
                                   ("LeftScroll", 512), ("ErrorDialog", 65536)) if yes(n.g(k)))
        ctl = [k for k in n.kids if k.tag == "Control"]
        if not ctl:
            raise Reject("dialog without controls")
        default = [k.g("Id") for k in ctl if yes(k.g("Default"))]
        cancel = [k.g("Id") for k in ctl if yes(k.g("Cancel"))]
        self.add("Dialog", Dialog=n.g("Id"), HCentering=50, VCentering=50, Width=int(n.g("Width")), Height=int(n.g("Height")), Attributes=attr, Title=n.g("Title"),
                 Control_First=ctl[0].g("Id"), Control_Default=default[-1] if default else None, Control_Cancel=cancel[-1] if cancel else None)
        tab = [k for k in ctl if k.g("Type") in ("Bitmap", "CheckBox", "Edit", "PushButton", "RadioButtonGroup") and not yes(k.g("TabSkip"))]
        if len(tab) > 1:
            for a, b in zip(tab, tab[1:] + tab[:1]):
                self.ctlrow[id(a)]["Control_Next"] = b.g("Id")

    ctlrow = {}

    def v_Control(self, n):
        g = n.g
        attr = 0
        if g("Type") not in ("Line", "Bitmap", "Icon") and not yes(g("Disabled")):
            attr |= 2
        if not yes(g("Hidden")):
            attr |= 1
        attr |= sum(b for k, b in (("Sunken", 4), ("Indirect", 8), ("Icon", 0x80000), ("NoPrefix", 0x20000), ("Transparent", 0x10000), ("FixedSize", 0x100000),
                                   ("ElevationShield", 0x800000)) if yes(g(k)))
        for k, b in (("ProgressBlocks", 0x10000), ("Fixed", 0x20000), ("ShowRollbackCost", 0x400000)):
            attr |= b if yes(g(k)) else 0
        attr |= {"16": 0x200000, "32": 0x400000, "48": 0x600000}.get(g("IconSize"), 0)
        text = g("Text")
        for k in n.kids:
            if k.tag == "Text":
                if k.g("SourceFile") is not None:
                    text = self.source(k.g("SourceFile")).decode()
                elif k.text:
                    text = k.text.strip(" \t\n\r")
        d = n.parent.g("Id")
        for a in ("Default", "Disable", "Enable", "Hide", "Show"):
            if g(a + "Condition") is not None:
                self.add("ControlCondition", Dialog_=d, Control_=g("Id"), Action=a, Condition=g(a + "Condition"))
        row = self.add("Control", Dialog_=d, Control=g("Id"), Type=g("Type"), X=int(g("X", "100")), Y=int(g("Y", "100")), Width=int(g("Width", "500")), Height=int(g("Height", "500")),
                       Attributes=attr or None, Property=g("Property"), Text=text, Help=None if g("ToolTip") is None else g("ToolTip") + "|")
        self.ctlrow[id(n)] = row
        if g("Type") == "CheckBox" and self.ui is not None:
            self.add("CheckBox", Property=g("Property"), Value=g("CheckBoxValue"))

    def v_Publish(self, n):
        if n.parent.tag == "UI":
            d, c = n.g("Dialog"), n.g("Control")
            self.wants("Dialog", d)
        else:
            d, c = n.parent.parent.g("Id"), n.parent.g("Id")
        if n.g("Property") is not None:
            ev, arg = "[%s]" % n.g("Property"), n.g("Value", "{}")
        else:
            ev, arg = n.g("Event"), n.g("Value")
        if n.g("Order") is not None:
            order = int(n.g("Order"))
            self.publish_order = order + 1
        else:
            order = self.publish_order
            self.publish_order += 1
        self.add("ControlEvent", Dialog_=d, Control_=c, Event=ev, Argument=arg, Condition=n.g("Condition", "1"), Ordering=order)

    def v_UIRef(self, n):
        self.wants("UI", n.g("Id"))

    def v_DialogRef(self, n):
        self.wants("Dialog", n.g("Id"))

    def v_RadioButtonGroup(self, n):
        pass

    def v_RadioButton(self, n):
        i = [k for k in n.parent.kids if k.tag == "RadioButton"].index(n) + 1
        self.add("RadioButton", Property=n.parent.g("Property"), Order=i, Value=n.g("Value"), X=int(n.g("X")), Y=int(n.g("Y")), Width=int(n.g("Width")), Height=int(n.g("Height")),
                 Text=n.g("Text"), Help=n.g("Help"))

    def v_Subscribe(self, n):
        self.add("EventMapping", Dialog_=n.parent.parent.g("Id"), Control_=n.parent.g("Id"), Event=n.g("Event"), Attribute=n.g("Attribute"))

    # -- everything

    def compile(self):
        self.ctlrow = {}
        for d in self.docs:
            self.visit(d)
        if self.secure:
            self.add("Property", Property="SecureCustomProperties", Value=";".join(self.secure))
        byfile = {r["File"] for r in self.t["File"]}
        for l in self.late:
            if l[0] == "shortcut":
                fs = self.in_feature.get(l[2])
                if not fs:
                    raise Reject("shortcut of a component without feature")
                l[1]["Target"] = fs[0]
            else:
                _, n, comp, data, ver = l
                if n.g("CompanionFile") is not None and n.g("CompanionFile") not in byfile:
                    raise Reject("companion file")
                disk = int(n.g("DiskId", "1"))
                if comp in self.in_feature:
                    if disk not in self.media:
                        raise Reject("no media %d" % disk)
                    self.payload[n.g("Id")] = data
                    self.disk[n.g("Id")] = disk
                    if ver is None:
                        h = struct.unpack("<4i", hashlib.md5(data).digest())
                        self.add("MsiFileHash", File_=n.g("Id"), Options=0, HashPart1=h[0], HashPart2=h[1], HashPart3=h[2], HashPart4=h[3])
        self.sequences()
        for name, rows in self.t.items():
            keys = [c for c, t in self.cols[name] if "!" in t]
            seen = set()
            for r in rows:
                k = tuple("RAND" if r[c] is RAND else r[c] for c in keys)
                if k in seen:
                    raise Reject("two rows %r in %s" % (k, name))
                seen.add(k)
                for c, t in self.cols[name]:
                    if r[c] is None and "?" not in t and c not in ("LastSequence", "Sequence") or isinstance(r[c], int) and t.startswith("i2") and not -32767 <= r[c] <= 32767:
                        raise Reject("%s.%s is %r" % (name, c, r[c]))
        return self

    def sequences(self):
        t = self.t
        D = {
            "AdminExecuteSequence": "CostInitialize FileCost CostFinalize InstallValidate InstallInitialize InstallAdminPackage InstallFiles InstallFinalize".split(),
            "AdminUISequence": "CostInitialize FileCost CostFinalize ExecuteAction".split(),
            "AdvtExecuteSequence": "CostInitialize CostFinalize InstallValidate InstallInitialize PublishFeatures PublishProduct InstallFinalize".split(),
            "InstallExecuteSequence": ("ValidateProductID CostInitialize FileCost CostFinalize InstallValidate InstallInitialize ProcessComponents UnpublishFeatures "
                                       "RegisterUser RegisterProduct PublishFeatures PublishProduct InstallFinalize").split(),
            "InstallUISequence": "ValidateProductID CostInitialize FileCost CostFinalize ExecuteAction".split(),
        }
        E, U = D["InstallExecuteSequence"], D["InstallUISequence"]
        if t["Shortcut"]:
            D["AdvtExecuteSequence"].append("CreateShortcuts")
            E += ["RemoveShortcuts", "CreateShortcuts"]
        if t["Upgrade"]:
            E += ["FindRelatedProducts", "MigrateFeatureStates"]
            U += ["FindRelatedProducts", "MigrateFeatureStates"]
        if t["LaunchCondition"]:
            E.append("LaunchConditions")
            U.append("LaunchConditions")
        if t["Registry"]:
            E += ["RemoveRegistryValues", "WriteRegistryValues"]
        if t["IniFile"]:
            E.append("WriteIniValues")
        if t["RemoveIniFile"]:
            E.append("RemoveIniValues")
        if t["File"]:
            E += ["RemoveFiles", "InstallFiles"]
        if t["RemoveFile"]:
            E.append("RemoveFiles")
        if t["ServiceControl"]:
            E += ["StartServices", "StopServices", "DeleteServices"]
        if t["ServiceInstall"]:
            E.append("InstallServices")
        if t["CreateFolder"]:
            E += ["RemoveFolders", "CreateFolders"]
        if t["AppSearch"]:
            E.append("AppSearch")
            U.append("AppSearch")
        self.default_actions = D
        for name in D:
            seq = self.seq[name]
            for a in D[name]:
                s = seq.setdefault(a, {"user": False, "after": [], "before": []})
                s.setdefault("std", True)
            for a, s in seq.items():
                if "num" not in s and a in DEFAULT_SEQ:
                    s["num"] = DEFAULT_SEQ[a]
                if not s["user"]:
                    s["cond"] = DEFAULT_COND.get(a)
                    # a standard action that is only named by another one keeps no condition in the reference: see check_sequences
                    s["named"] = not s.get("std")


for _t in ("InstallExecuteSequence", "InstallUISequence", "AdminExecuteSequence", "AdminUISequence", "AdvertiseExecuteSequence"):
    pass


def is_action(n):
    return n.parent is not None and n.parent.tag.endswith("Sequence")


_orig_visit = Compiler.visit


def _visit(self, n):
    if is_action(n):
        self._action(n)
        return
    _orig_visit(self, n)


Compiler.visit = _visit
