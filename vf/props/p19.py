"""Every file of a package is in its cabinet, byte for byte, where File and Media say."""
from .. import wixgen, wixprop


class P19(wixprop.WixProp):
    id = "P19"
    quick = 160
    thorough = 2500
    focus = ("media", "key")
    tables = ("File", "Media", "MsiFileHash")
    kw = {"files_max": 70000}
    rule = ("a case is a generated WiX document over several source files with up to three media, embedded cabinets or not; the package and the cabinets are read "
            "by independent parsers; non-trivial: a file was put into a cabinet")

    def verify(self, case, d, f, ref):
        wixgen.check_table(f, ref, "File", skip=("Sequence",))
        wixgen.check_table(f, ref, "Media", skip=("LastSequence",))
        wixgen.check_table(f, ref, "MsiFileHash")
        wixgen.check_payload(f, ref, d)

    def rate(self, case, f, ref):
        n = len(set(ref.disk.values()))
        labels = ["%d media used" % n]
        if any(not e for _, e in ref.media.values()):
            labels.append("external cabinet")
        if any(len(x) > 32768 for x in ref.payload.values()):
            labels.append("several blocks")
        if any(not x for x in ref.payload.values()):
            labels.append("empty file")
        return bool(ref.payload), labels


PROP = P19
