"""Summary information: what was set is what is read, in the session, in the file and as text."""
import datetime, os

from hypothesis import strategies as st

from ..core import Prop, Violation, case_dir
from ..driver import X
from .. import hist, idt, model as M, msifmt, suminfo, tools
from . import p05

IDS = sorted(list(suminfo.INT) + list(suminfo.STR) + list(suminfo.TIME))
EPOCH = 134774 * 86400
NAMES = {2: "Title", 3: "Subject", 4: "Author", 5: "Keywords", 6: "Comments", 7: "Template", 8: "Last author", 9: "Revision number (UUID)",
         10: "Edittime", 11: "Last printed", 12: "Created", 13: "Last saved", 14: "Version", 15: "Source", 16: "Restrict", 18: "Application", 19: "Security"}


@st.composite
def value(draw, p, text=False):
    k = suminfo.kind(p)
    if k == "int":
        return draw(st.one_of(st.sampled_from([0, 1, -1, 2, 200, 1252, 32767] + ([] if p == 1 else [65536, 2 ** 31 - 1, -2 ** 31])), st.integers(0, 32767)))
    if k == "str":
        return draw(st.one_of(st.sampled_from(["", "a", "Intel;1033", "x" * 1000, "{00000000-0000-0000-0000-000000000000}"]), st.text(M.ASCII + M.LATIN, max_size=30), idt.CTL))
    s = draw(st.one_of(st.sampled_from([EPOCH, 0, 600, EPOCH + 1700000000, EPOCH + 2 ** 31]), st.integers(0, EPOCH + 4 * 10 ** 9)))
    return s * 10 ** 7 + (0 if text else draw(st.sampled_from([0, 0, 1, 9999999])))


@st.composite
def cases(draw):
    init = None
    if draw(st.booleans()):
        ids = draw(st.lists(st.sampled_from(IDS), max_size=18, unique=True))
        init = {"p": [[p, draw(value(p))] for p in draw(st.permutations(ids))], "order": draw(st.permutations(ids)), "gap": draw(st.sampled_from([0, 0, 4]))}
    ops = [["open", draw(st.sampled_from([0, 1, 2, 3, 5, 20, 2 ** 31 - 1]))]]
    for _ in range(draw(st.integers(2, 20))):
        k = draw(st.sampled_from(["set"] * 8 + ["wrong", "unknown", "open", "persist", "persist", "commit", "reopen", "rollback", "save", "text", "all"]))
        if k == "set":
            p = draw(st.sampled_from(IDS))
            ops.append([k, p, draw(value(p, True))])
        elif k == "wrong":
            p, q = draw(st.sampled_from(IDS)), draw(st.sampled_from(IDS))
            if suminfo.kind(p) == suminfo.kind(q):
                continue
            ops.append([k, p, draw(value(q, True)), suminfo.kind(q)])
        elif k == "unknown":
            ops.append([k, draw(st.sampled_from([0, 17, 20, 21, 255, 70000])), draw(st.sampled_from(["int", "str", "time"]))])
        elif k == "open":
            ops.append([k, draw(st.sampled_from([0, 1, 2, 3, 20, 2 ** 31 - 1]))])
        else:
            ops.append([k])
    return {"init": init, "ops": ops, "tool": draw(st.integers(0, 4)) == 0}


def tok(k, v):
    return "i%d" % v if k == "int" else "t%d" % v if k == "time" else "s" + v.encode().hex()


def when(v):
    return (datetime.datetime(1601, 1, 1) + datetime.timedelta(seconds=v // 10 ** 7))


def astext(p, v):
    k = suminfo.kind(p)
    return str(v) if k == "int" else idt.esc(v) if k == "str" else "{d.year:04}/{d.month:02}/{d.day:02} {d.hour:02}:{d.minute:02}:{d.second:02}".format(d=when(v))


class P11(Prop):
    id = "P11"
    quick = 500
    thorough = 6000
    rule = ("a case is a history of opening, setting, persisting, saving elsewhere, committing, reopening and rolling back summary information, on a new file or one whose "
            "property set an independent writer made, with text export and import and msiinfo suminfo; non-trivial: the final file has at least two properties")
    strategy = staticmethod(cases)

    def run(self, case, env):
        d = case_dir(env)
        path = os.path.join(d, "s.msi")
        t = M.Table("Property", [M.Col("Property", "s", 72, key=True, null=False), M.Col("Value", "s", null=True)])
        t.rows, t.temp = [["p", "q"]], [False]
        mdb = M.DB()
        mdb.t[t.name] = t
        i = case["init"]
        props = dict((p, v) for p, v in i["p"]) if i else {}
        streams = {msifmt.SUMMARY: suminfo.write(props, i["order"], i["gap"])} if i and props else {}
        with open(path, "wb") as f:
            f.write(msifmt.Writer().build([t], streams=streams))
        saved = dict(props)         # in the file
        cur = dict(props)           # in the session's database
        si, left = None, 0          # the open object
        base = 0
        sc = hist.Script()
        sc.add(["open", "0", X(path), "4", "N"], hist.expect_ok)
        labels = set()
        nfile = 0

        def getall(slot, want):
            for p in IDS + [17]:
                def f(r, p=p, v=want.get(p)):
                    ty = {None: 0, "int": 1, "str": 2, "time": 3}[None if v is None else suminfo.kind(p)]
                    if r.get("type") != ty or r.get("v") != v:
                        return "property %d is %s, expected type %d value %s" % (p, hist.short(r), ty, hist.short(v))
                sc.add(["si_get", slot, str(p)], f)

            def g(r, want=sorted(want)):
                if r.get("v") != want:
                    return "properties %r, expected %r" % (r.get("v"), want)
            sc.add(["si_props", slot], g)

        for op in case["ops"]:
            k = op[0]
            labels.add(k)
            if k == "open":
                sc.add(["si_open", "0", "0", str(op[1])], hist.expect_ok)
                si, left = dict(cur), op[1]
                getall("0", si)
            elif k == "set":
                p, v = op[1], op[2]
                ok = p in si or left > 0
                if p not in si and ok:
                    left -= 1
                if ok:
                    si[p] = v
                else:
                    labels.add("limit")
                sc.add(["si_set", "0", str(p), tok(suminfo.kind(p), v)], hist.expect_ok if ok else hist.expect_fail)
                getall("0", si)
            elif k == "wrong":
                sc.add(["si_set", "0", str(op[1]), tok(op[3], op[2])], hist.expect_fail)
                getall("0", si)
            elif k == "unknown":
                sc.add(["si_set", "0", str(op[1]), tok(op[2], "x" if op[2] == "str" else 5)], hist.expect_fail)
                getall("0", si)
            elif k == "persist":
                sc.add(["si_persist", "0"], hist.expect_ok)
                cur = dict(si)
            elif k == "commit":
                sc.add(["commit", "0"], hist.expect_ok)
                saved = dict(cur)
            elif k in ("reopen", "rollback"):
                if k == "reopen":
                    sc.add(["commit", "0"], hist.expect_ok)
                    saved = dict(cur)
                sc.add(["si_free", "0"])
                sc.add(["close", "0"])
                sc.add(["open", "0", X(path), "4", "N"], hist.expect_ok)
                cur = dict(saved)
                sc.add(["si_open", "0", "0", "20"], hist.expect_ok)
                si, left = dict(cur), 20
                getall("0", si)
            elif k == "save":
                # into another database
                p2 = os.path.join(d, "o%d.msi" % nfile)
                nfile += 1
                sc.add(["open", "1", X(p2), "2", "N"], hist.expect_ok)
                sc.add(["si_save", "0", "1"], hist.expect_ok)
                sc.add(["si_open", "1", "1", "0"], hist.expect_ok)
                getall("1", si)
                sc.add(["si_free", "1"])
                sc.add(["close", "1"])
            elif k == "text":
                # the text of what the database holds, then imported into an empty one
                if any(suminfo.kind(p) == "time" and v % 10 ** 7 for p, v in cur.items()) or not cur:
                    continue
                fn = os.path.join(d, "t%d.idt" % nfile)
                nfile += 1

                def f(r, fn=fn, want=dict(cur)):
                    if r.get("ok") is not True:
                        return "export of summary information failed"
                    got = open(fn, "rb").read().decode("utf-8", "surrogateescape")
                    exp = "PropertyId\tValue\r\ni2\tl255\r\n_SummaryInformation\tPropertyId\r\n" + "".join("%d\t%s\r\n" % (p, astext(p, want[p])) for p in sorted(want))
                    if got != exp:
                        return "summary information is exported as %r, expected %r" % (got, exp)
                sc.add(["export", "0", X("_SummaryInformation"), X(fn)], f)
                sc.add(["open", "1", X(os.path.join(d, "i.msi")), "2", "N"], hist.expect_ok)
                sc.add(["import", "1", X(fn)], hist.expect_ok)
                sc.add(["si_open", "1", "1", "0"], hist.expect_ok)
                getall("1", cur)
                sc.add(["si_free", "1"])
                sc.add(["close", "1"])
            elif k == "all":
                getall("0", si)
        sc.add(["si_free", "0"])
        sc.add(["commit", "0"], hist.expect_ok)
        sc.add(["close", "0"])
        sc.run(env.drv)
        f = p05.parse(path, "committed file")
        b = f.streams.get(msifmt.SUMMARY)
        got = suminfo.read(b, "committed file") if b else {}
        if b is None and cur:
            raise Violation("the committed file has no summary information, expected %s" % hist.short(cur))
        if b is not None and got != cur:
            raise Violation("the committed file has summary information %s, expected %s" % (hist.short(got), hist.short(cur)))
        p05.compare(mdb, f, "committed file")
        if case["tool"]:
            labels.add("tool")
            r = tools.run([env.p.msiinfo, "suminfo", path])
            out = r.out.decode("utf-8", "replace")
            exp = ""
            for p in sorted(NAMES):
                if p not in cur:
                    continue
                v = cur[p]
                k = suminfo.kind(p)
                exp += "%s: %s" % (NAMES[p], "%d (%x)\n" % (v, v & 0xffffffff) if k == "int" else v + "\n" if k == "str" else when(v).strftime("%a %b ") + "{d.day:2} {d.hour:02}:{d.minute:02}:{d.second:02} {d.year}\n".format(d=when(v)))
            if r.rc or out.replace("\r", "") != exp.replace("\r", ""):
                raise Violation("msiinfo suminfo: rc %d, printed %r, expected %r" % (r.rc, out, exp))
        return len(cur) >= 2, labels


PROP = P11
