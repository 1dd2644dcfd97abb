"""The text format of tables, against an independent reader and writer."""
import os

from hypothesis import strategies as st

from ..core import Prop, Violation, case_dir
from ..driver import X
from .. import hist, idt, model as M, msifmt, tools
from . import p05


@st.composite
def cases(draw):
    dirn = draw(st.sampled_from(["export", "export", "import", "import", "import", "bad"]))
    case = {"dir": dirn, "ops": draw(idt.database(maxt=2)), "via": draw(st.sampled_from(["api", "api", "api", "tools"]))}
    if dirn == "import":
        case["opts"] = {"eol": draw(st.sampled_from(["\r\n", "\r\n", "\n"])), "final": draw(st.booleans()), "nul": draw(st.sampled_from([0, 0, 1, 3]))}
        case["over"] = draw(st.booleans())
        # rows of an existing table which the import replaces
        case["keep"] = draw(st.integers(0, 3))
    if dirn == "bad":
        case["bad"] = [draw(st.sampled_from(FAULTS)), draw(st.integers(0, 99)), draw(st.integers(0, 99))]
        case["opts"] = {"eol": draw(st.sampled_from(["\r\n", "\n"]))}
    return case


FAULTS = ["short row", "types", "letter", "width", "key", "twice", "range", "file", "label"]


def damage(t, data, fault):
    """A text which does not describe a table; None where this fault cannot be."""
    kind, x, y = fault
    eol = "\r\n" if b"\r\n" in data else "\n"
    lines = [l.split("\t") for l in data.decode().split(eol)[:-1]]
    n, rows = len(t.cols), range(3, len(lines))

    def cols(pred):
        return [i for i, c in enumerate(t.cols) if pred(c)]
    i = 3 + x % len(rows) if rows else None
    if kind == "short row" and rows and n > 1:
        del lines[i][1 + y % (n - 1):]
        if lines[i] == [""]:
            # an empty line is no row
            return None
    elif kind == "types":
        if y % 2 and n > 1:
            lines[1].pop()
        else:
            lines[1].append("s72")
    elif kind == "letter":
        c = x % n
        lines[1][c] = "qxzYTG#?"[y % 8] + lines[1][c][1:]
    elif kind == "width" and cols(lambda c: c.kind in ("i2", "i4")):
        c = cols(lambda c: c.kind in ("i2", "i4"))
        c = c[x % len(c)]
        lines[1][c] = lines[1][c][0] + ["3", "5", "8", "44"][y % 4]
    elif kind == "key":
        lines[2].append("NoSuchColumn")
        if y % 2:
            del lines[2][1:-1]
    elif kind == "twice" and rows:
        lines.insert(i, lines[i])
    elif kind == "range" and rows and cols(lambda c: c.kind == "i2" and not c.key):
        c = cols(lambda c: c.kind == "i2" and not c.key)
        lines[i][c[x % len(c)]] = ["40000", "-40000", "32768", "65536", "-65537", "2147483647"][y % 6]
    elif kind == "file" and rows and cols(lambda c: c.kind == "b"):
        c = cols(lambda c: c.kind == "b")
        lines[i][c[x % len(c)]] = "nothere.ibd"
    elif kind == "label":
        lines[2] = [t.name] if y % 2 else lines[2][:1] + ["NoSuchColumn"]
    else:
        return None
    return "".join("\t".join(l) + eol for l in lines).encode()


class P10(Prop):
    id = "P10"
    quick = 260
    thorough = 5000
    rule = ("a case is a generated database exported and read by an independent parser of the text format, or written by an independent writer "
            "(line ends, missing last line end, trailing NUL bytes, escapes) and imported into a new or an existing table; "
            "non-trivial: at least one table with two columns and a row")
    strategy = staticmethod(cases)

    def shrink(self, case):
        for i in range(len(case["ops"]) - 1, -1, -1):
            yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
        if case["via"] != "api":
            yield dict(case, via="api")
        if case.get("over"):
            yield dict(case, over=False)

    def run(self, case, env):
        d = case_dir(env)
        path = os.path.join(d, "a.msi")
        db = M.DB()
        for op in case["ops"]:
            db.apply(op)
        names = sorted(db.t)
        api = case["via"] == "api"
        labels = {case["dir"], case["via"]}
        sc = hist.Script()
        sc.add(["chdir", X(d)])
        sc.add(["open", "0", X(path), "2", "N"], hist.expect_ok)
        if case["dir"] == "bad":
            return self.bad(case, d, db, sc, path, env)
        if case["dir"] == "export":
            m = M.DB()
            for op in case["ops"]:
                sql, params, ok = m.apply(op)
                sc.query(0, sql, params, hist.expect_ok if ok else hist.expect_fail)
            out = {n: os.path.join(d, "%d.idt" % i) for i, n in enumerate(names)}
            if api:
                for n in names:
                    sc.add(["export", "0", X(n), X(out[n])], hist.expect_ok)
            else:
                sc.add(["commit", "0"], hist.expect_ok)
            sc.add(["close", "0"])
            sc.add(["chdir", X(env.tmp)])
            sc.run(env.drv)
            for n in names:
                if api:
                    data = open(out[n], "rb").read()
                else:
                    r = tools.run([env.p.msiinfo, "export", path, n], cwd=d)
                    if r.rc:
                        raise Violation("msiinfo export %s failed: %s" % (n, r.err[:300]))
                    data = r.out
                idt.check(db.t[n], data, "export of %s" % n, d)
            exp = set(os.listdir(d)) - {"a.msi"} - {os.path.basename(x) for x in out.values()} - {
                idt.dirname(n) for n in names if any(isinstance(v, bytes) for r in db.t[n].rows for v in r)}
            if exp:
                raise Violation("export wrote %s" % sorted(exp))
        else:
            files = []
            for i, n in enumerate(names):
                fn = os.path.join(d, "%d.idt" % i)
                with open(fn, "wb") as f:
                    f.write(idt.write(db.t[n], None, d, case["opts"]))
                files.append(fn)
            labels.add("crlf" if case["opts"]["eol"] == "\r\n" else "lf")
            pre = M.DB()
            if case["over"]:
                # the tables exist already, with some of their rows
                labels.add("existing")
                left = case["keep"]
                for op in case["ops"]:
                    if op["op"] == "insert" and (left <= 0 or M.has_binary(pre.t[op["t"]])):
                        continue
                    sql, params, ok = pre.apply(op)
                    sc.query(0, sql, params, hist.expect_ok if ok else hist.expect_fail)
                    left -= op["op"] == "insert"
            if api:
                for fn in files:
                    sc.add(["import", "0", X(fn)], hist.expect_ok)
                hist.full_dump(sc, 0, db)
                hist.catalog(sc, 0, db)
            sc.add(["commit", "0"], hist.expect_ok)
            if api:
                hist.full_dump(sc, 0, db)
            sc.add(["close", "0"])
            sc.add(["chdir", X(env.tmp)])
            sc.run(env.drv)
            if not api:
                r = tools.run([env.p.msibuild, path, "-i"] + files, cwd=d)
                if r.rc:
                    raise Violation("msibuild -i failed: %s" % r.err[:300])
            p05.compare(db, p05.parse(path, "after import"), "after import")
        nt = any(len(t.cols) > 1 and t.rows for t in db.t.values())
        vals = [v for t in db.t.values() for r in t.rows for v in r]
        if any(isinstance(v, str) and set(v) & set("\t\r\n") for v in vals):
            labels.add("separators")
        if any(isinstance(v, bytes) for v in vals):
            labels.add("binary")
        return nt, labels

    def bad(self, case, d, db, sc, path, env):
        """A text which describes no table is refused and leaves everything else alone."""
        names = sorted(db.t)
        kind, x, y = case["bad"]
        m = M.DB()
        for op in case["ops"]:
            sql, params, ok = m.apply(op)
            if op["t"] != names[0]:
                sc.query(0, sql, params, hist.expect_ok if ok else hist.expect_fail)
        t = db.t.pop(names[0])
        text = idt.write(t, None, d, case["opts"])
        k = FAULTS.index(kind)
        for kind in FAULTS[k:] + FAULTS[:k]:
            data = damage(t, text, (kind, x, y))
            if data is not None:
                break
        fn = os.path.join(d, "bad.idt")
        with open(fn, "wb") as f:
            f.write(data)
        other = M.DB()
        other.t = db.t

        if case["via"] == "api":
            sc.add(["import", "0", X(fn)], hist.expect_fail)
            hist.full_dump(sc, 0, other)
        sc.add(["commit", "0"], hist.expect_ok)
        sc.add(["close", "0"])
        sc.add(["chdir", X(env.tmp)])
        sc.run(env.drv)
        if case["via"] != "api":
            r = tools.run([env.p.msibuild, path, "-i", fn], cwd=d)
            if not r.rc:
                raise Violation("msibuild -i of a file with a fault (%s) reports success: %r" % (kind, data[:400]))
        f = p05.parse(path, "after a refused import")
        # of the table itself a part may be there
        f.tables.pop(t.name, None)
        p05.compare(other, f, "after a refused import")
        return True, ["bad", kind]


PROP = P10
