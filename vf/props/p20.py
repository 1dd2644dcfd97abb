"""Directories, components and features of a package are those of the document, and no reference dangles."""
from ..core import Violation
from .. import wixgen, wixprop

REFS = [("Directory", "Directory_Parent", "Directory"), ("Component", "Directory_", "Directory"), ("Feature", "Feature_Parent", "Feature"), ("Feature", "Directory_", "Directory"),
        ("FeatureComponents", "Feature_", "Feature"), ("FeatureComponents", "Component_", "Component"), ("File", "Component_", "Component"), ("Registry", "Component_", "Component"),
        ("Shortcut", "Component_", "Component"), ("Shortcut", "Icon_", "Icon"), ("CreateFolder", "Component_", "Component"), ("CreateFolder", "Directory_", "Directory"),
        ("RemoveFile", "Component_", "Component"), ("ServiceInstall", "Component_", "Component"), ("ServiceControl", "Component_", "Component"), ("IniFile", "Component_", "Component"),
        ("MsiFileHash", "File_", "File"), ("AppSearch", "Signature_", "RegLocator")]


def check_refs(f):
    for t, c, to in REFS:
        keys = {r[f.tables[to][0][0][0]] for r in wixgen.actual_rows(f, to)}
        for r in wixgen.actual_rows(f, t):
            if r[c] is not None and r[c] not in keys:
                raise Violation("%s.%s refers to %r, which is not in %s" % (t, c, r[c], to))
    comp = {r["Component"]: r for r in wixgen.actual_rows(f, "Component")}
    own = {r["File"]: r["Component_"] for r in wixgen.actual_rows(f, "File")}
    reg = {r["Registry"]: r["Component_"] for r in wixgen.actual_rows(f, "Registry")}
    for c, r in comp.items():
        k = r["KeyPath"]
        if k is not None and (reg if r["Attributes"] & 4 else own).get(k) != c:
            raise Violation("key path %r of component %s is not its own" % (k, c))


class P20(wixprop.WixProp):
    id = "P20"
    quick = 160
    thorough = 2500
    focus = ("key", "folder", "feature")
    tables = ("Directory", "Component", "Feature", "FeatureComponents", "CreateFolder", "RemoveFile")
    rule = ("a case is a generated WiX document: directory trees, components in directories, fragments and component groups, nested groups and features, key paths; "
            "the package is compared with a reference compiler's tables; non-trivial: a component is in a feature and there are two directories below the root")

    def verify(self, case, d, f, ref):
        wixgen.check_schema(f, ref)
        super().verify(case, d, f, ref)
        check_refs(f)

    def rate(self, case, f, ref):
        labels = ["has " + t for t in self.tables if ref.t[t]]
        if len(case["docs"]) > 1:
            labels.append("several documents")
        if any(r["Feature_Parent"] for r in ref.t["Feature"]):
            labels.append("nested features")
        return bool(ref.t["FeatureComponents"]) and len(ref.t["Directory"]) > 2, labels


PROP = P20
