"""What components and the product contain arrives in the tables, character by character."""
from hypothesis import strategies as st

from .. import wixgen, wixprop

FOCI = [("registry",), ("shortcut",), ("service", "ini"), ("property", "binary"), ("registry", "shortcut", "service", "ini", "property", "binary", "action")]


class P25(wixprop.WixProp):
    id = "P25"
    quick = 160
    thorough = 2500
    tables = ("Registry", "Shortcut", "ServiceInstall", "ServiceControl", "IniFile", "RemoveIniFile", "Property", "LaunchCondition", "Upgrade", "AppSearch", "RegLocator", "Signature", "Icon", "Binary",
              "CustomAction", "ActionText", "Error")
    rule = ("a case is a generated WiX document with registry values, ProgIds, shortcuts, services, ini files, properties and searches, upgrades, conditions, icons and binaries, texts with all kinds of "
            "characters and as CDATA; tables, streams and summary information are compared with a reference compiler; non-trivial: a row in a table other than Property")

    def strategy(self):
        return st.sampled_from(FOCI).flatmap(lambda f: wixgen.document(focus=f))

    def verify(self, case, d, f, ref):
        super().verify(case, d, f, ref)
        wixgen.check_suminfo(f, case, ref)

    def rate(self, case, f, ref):
        n = {t: len(ref.t[t]) for t in self.tables}
        return any(k for t, k in n.items() if t != "Property"), ["has " + t for t, k in n.items() if k]


PROP = P25
