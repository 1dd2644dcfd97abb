"""The UI extension: dialogs and what belongs to them, and which parts of the extension are loaded."""
import os
import xml.etree.ElementTree as ET

from .. import build, tools, wixgen, wixprop, wixref
from ..core import Violation, case_dir

TABLES = list(wixref.UI_SCHEMA) + ["ActionText", "Property", "Binary"]


def node(e):
    kids = [e.text] if e.text and e.text.strip() else []
    for k in e:
        if isinstance(k.tag, str):
            kids.append(node(k))
        if k.tail and k.tail.strip():
            kids.append(k.tail)
    return [e.tag.split("}")[-1], dict(e.attrib), kids]


class Library(dict):
    """The documents of an extension directory."""

    def __init__(self, d):
        for n in os.listdir(os.path.join(d, "ui")):
            if n.endswith(".wxs"):
                self[n[:-4]] = node(ET.parse(os.path.join(d, "ui", n)).getroot())


class P31(wixprop.WixProp):
    id = "P31"
    quick = 120
    thorough = 2500
    rule = ("a case is a generated WiX document with dialogs, controls, events, styles and texts and a generated extension directory (or the one that is installed), parts of which are "
            "loaded on reference; every table of the user interface, the texts, properties, streams and sequences are as the reference compiler says; non-trivial: two dialogs in the package")

    def strategy(self):
        return wixgen.ui_document()

    def fixed_cases(self):
        out = []
        for ref in ("WixUI_Minimal", "WixUI_Common"):
            for arch in (None, "x64"):
                doc = ["Wix", {}, [["Product", {"Name": "p", "Id": "*", "UpgradeCode": "11111111-2222-3333-4444-555555555555", "Language": "1033", "Version": "1.2.3", "Manufacturer": "m"}, [
                    ["Package", {}, []], ["Media", {"Id": "1", "Cabinet": "a.cab", "EmbedCab": "yes"}, []],
                    ["Directory", {"Id": "TARGETDIR", "Name": "SourceDir"}, [["Component", {"Id": "c", "Guid": "*"}, [["File", {"Id": "f", "Source": "f.txt"}, []]]]]],
                    ["Feature", {"Id": "F", "Level": "1"}, [["ComponentRef", {"Id": "c"}, []]]], ["UIRef", {"Id": ref}, []]]]]]
                out.append({"docs": [doc], "files": {"f.txt": [1, 20]}, "arch": arch, "ext": "installed"})
        return out

    def shrink(self, case):
        yield from wixgen.tree_shrink(case)
        if not isinstance(case["ext"], dict):
            return
        for n in case["ext"]:
            if n not in ("CancelDlg", "Common"):
                yield dict(case, ext={k: v for k, v in case["ext"].items() if k != n})
            for c in wixgen.tree_shrink({"docs": [case["ext"][n]], "files": {}}):
                yield dict(case, ext=dict(case["ext"], **{n: c["docs"][0]}))

    def ran(self, case, env):
        d = case_dir(env)
        extra, ui = [], None
        lib = os.path.join(build.REPO, "data/ext")
        if case["ext"] == "installed":
            ui = Library(lib)
            extra = ["--ext", "ui", "--extdir", lib]
        elif case["ext"] is not None:
            ui = case["ext"]
            os.makedirs(os.path.join(d, "x y", "ui"))
            for n, doc in ui.items():
                with open(os.path.join(d, "x y", "ui", n + ".wxs"), "w", encoding="utf-8") as f:
                    f.write(wixref.xml(doc) + "\n")
            extra = ["--ext", "ui", "--extdir", "x y"]
        r, look = wixgen.build(env, d, case, extra=extra)

        def find(n):
            x = look(n)
            p = os.path.join(lib, n)
            if x is None and case["ext"] == "installed" and os.path.exists(p):
                x = open(p, "rb").read()
            return x
        if r.rc < 0 or r.rc > 1:
            raise Violation("wixl dies (%d): %s" % (r.rc, r.err.decode("utf-8", "replace")[-600:]))
        try:
            ref = wixgen.reference(case, find, ui=ui)
        except wixref.Reject as e:
            if r.rc == 0:
                raise Violation("wixl accepts a document that should be rejected: %s" % e)
            return None
        if r.rc != 0 and b"depends on itself" in r.err and any(wixgen.contradictory(s) for s in ref.seq.values()):
            return None
        if ui is None:
            return None         # dialogs without the extension: not specified
        if r.rc != 0:
            raise Violation("wixl fails (%d): %s" % (r.rc, r.err.decode("utf-8", "replace")[-600:]))
        return d, wixgen.parse(os.path.join(d, "out.msi")), ref

    def verify(self, case, d, f, ref):
        wixgen.check_schema(f, ref)
        for t in TABLES:
            # Control.Help is never written
            wixgen.check_table(f, ref, t, skip=("Help",) if t == "Control" else ())
        wixgen.check_sequences(f, ref)

    def rate(self, case, f, ref):
        n = len(ref.t["Dialog"])
        loaded = len(ref.docs) - len(case["docs"]) - 2
        return n > 1, ["%d loaded" % loaded, "%s dialogs" % (n if n < 4 else ">3")] + ["has " + t for t in TABLES if ref.t[t]]


PROP = P31
