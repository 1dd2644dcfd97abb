"""The preprocessor turns a document and its includes into what a reference evaluator says, for any nesting of conditions, definitions and includes."""
import os, re
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

from hypothesis import strategies as st

from ..core import Prop, Violation, case_dir
from .. import tools

NAMES = ["A", "B", "Foo", "x.y", "v_1", "foo", "Not2"]
ENVN = ["PP_A", "PP_B"]
VALS = ["", "C:\\new\\", "1", "0", "2", "10", "9", "abc", "ABC", "a b", "x=y", "é", "<&>", "q'q", "$", "$$", "a$b", "0.5", "yes", "A", " "]
WORDS = ["", "a", "text", " two  words ", "<&>", "é€日", "$", "$$", "$$$", "a$b", "$5", "()", "%s%d", "]]", "\"q'", "(", ")", "-- x"]
PATHS = ["a.wxi", "inc1/a.wxi", "inc2/a.wxi", "src/a.wxi", "inc1/b.wxi", "src/b.wxi", "b.wxi", "src/sub/c.wxi", "inc2/c.wxi", "src/sub/d.wxi", "inc2/sub/d.wxi"]


class Fail(Exception):
    """the run has to fail"""


class Unspecified(Exception):
    pass


ref = st.one_of(st.sampled_from(["var." + n for n in NAMES]), st.sampled_from(["var." + n for n in NAMES]), st.sampled_from(["env." + n for n in ENVN] + ["sys.BUILDARCH", "sys.SOURCEFILEDIR", "sys.SOURCEFILEPATH", "sys.CURRENTDIR"]))
ref_any = st.one_of(ref, ref, ref, ref, ref, ref, ref, ref, ref, ref, ref, ref, st.sampled_from(["foo.X", "plain", "sys.NOPE", "var.Nope"]))
pieces = st.lists(st.one_of(st.sampled_from(WORDS), ref.map(lambda r: "$(%s)" % r)), max_size=3).map("".join)
ident = st.sampled_from(["abc", "ABC", "A", "yes", "x86", "x64", "a1", "b.c"])


# in a settled document these variables are always defined, and only numbers are given to the last two
NUMS = ["n1", "n_2"]
sref = st.one_of(st.sampled_from(["var." + n for n in NAMES]), st.sampled_from(["var." + n for n in NAMES + NUMS]), st.sampled_from(["env." + n for n in ENVN] + ["sys.BUILDARCH", "sys.SOURCEFILEDIR", "sys.SOURCEFILEPATH"]))
spieces = st.lists(st.one_of(st.sampled_from(WORDS), sref.map(lambda r: "$(%s)" % r)), max_size=3).map("".join)


@st.composite
def term(draw, safe=False):
    k = draw(st.integers(0, 9))
    if k < 4:
        return ["v", draw(sref if safe else ref)]
    if k < 6:
        return ["i", draw(st.sampled_from([0, 1, 2, 9, 10, 100]))]
    if k < 8:
        return ["s", draw(st.sampled_from(["", "abc", "ABC", "a b", "1", "é", "x=y", "C:\\new\\", "and", "$(var.A)", "#", "x86"])), draw(st.sampled_from("\"'"))]
    return ["n", draw(ident)]


@st.composite
def cond(draw, depth=3, safe=False):
    k = draw(st.integers(0, 11))
    if depth and k == 0:
        return ["not", draw(cond(depth=depth - 1, safe=safe))]
    if depth and k in (1, 2):
        op = draw(st.sampled_from(["and", "or"]))
        return [op, [draw(cond(depth=depth - 1, safe=safe)) for i in range(draw(st.integers(2, 3)))]]
    if depth and k == 3:
        return ["p", draw(cond(depth=depth - 1, safe=safe))]
    if k == 4:
        return ["b", draw(st.sampled_from([0, 1, 2]))]
    if k < 9:
        return ["cmp", draw(st.sampled_from(["=", "!=", "~="])), draw(term(safe)), draw(term(safe))]
    if safe:
        num = st.one_of(st.sampled_from([0, 1, 2, 9, 10, 100]).map(lambda i: ["i", i]), st.sampled_from(NUMS).map(lambda n: ["v", "var." + n]))
        return ["cmp", draw(st.sampled_from(["<", "<=", ">", ">="])), draw(num), draw(num)]
    return ["cmp", draw(st.sampled_from(["<", "<=", ">", ">="])), draw(term()), draw(term())]


@st.composite
def node(draw, depth, level, safe=False):
    text = spieces if safe else pieces
    k = draw(st.integers(0, 29))
    if depth <= 0 and k in (0, 1, 2, 3, 10, 11, 12, 13, 14, 15, 16, 17):
        k = 20
    if k < 6:
        at = draw(st.lists(st.tuples(st.sampled_from(["Id", "Name", "Value", "x"]), text), max_size=3, unique_by=lambda a: a[0]))
        kids = draw(nodes(depth - 1, level, safe)) if k < 4 else []
        return ["e", draw(st.sampled_from(["E", "F", "Include", "Wix", "g"])), [list(a) for a in at], kids]
    if k < 9:
        return ["t", draw(text)]
    if k == 9:
        return ["c", draw(text)]
    if k < 15:
        n = draw(st.integers(1, 3))
        br = [[draw(cond(safe=safe)), draw(nodes(depth - 1, level, safe))] for i in range(n)]
        return ["if", br, draw(st.one_of(st.none(), nodes(depth - 1, level, safe)))]
    if k < 18:
        br = [[draw(st.one_of(sref, st.sampled_from(["var.u", "var.u", "var.w"])) if safe else ref_any), draw(nodes(depth - 1, level, safe))]] + ([[draw(cond(safe=safe)), draw(nodes(depth - 1, level, safe))]] if draw(st.integers(0, 3)) == 0 else [])
        return ["ifdef", draw(st.booleans()), br, draw(st.one_of(st.none(), nodes(depth - 1, level, safe)))]
    if safe and k < 24 and draw(st.integers(0, 3)) == 0:
        x = draw(st.sampled_from(["u", "w"] + NUMS))
        return ["def", x, draw(st.sampled_from(["0", "1", "2", "9", "10"])), draw(st.sampled_from("\"'n")), draw(st.booleans()), "="]
    if safe and k in (24, 25, 27):
        # undefined, required twice, or commented out
        return draw(st.sampled_from([["undef", "u", True], ["undef", "w", False], ["k"], ["req", "a.wxi"], ["req", "b.wxi"], ["inc", "c.wxi" if level < 3 else "sub/d.wxi"] if level < 4 else ["k"]]))
    if k < 24:
        return ["def", draw(st.sampled_from(NAMES)), draw(st.one_of(st.sampled_from(VALS), st.sampled_from(VALS), text)), draw(st.sampled_from("\"'n")), draw(st.booleans()), draw(st.sampled_from(["=", " = ", "= "]))]
    if k < 26:
        return ["undef", draw(st.sampled_from(NAMES)), draw(st.booleans())]
    if k == 26:
        return ["warn", draw(text)]
    if k == 27:
        return draw(st.sampled_from([["k"], ["pi", "unknown", "x"], ["k"], ["k"], ["err", "stop $(var.A)"], ["t", "$(foo.X)"], ["t", "$(var.A"], ["t", "$(var.Nope)"], ["t", "$(f(x))"]]))
    name = ["a.wxi", "b.wxi", "c.wxi", "sub/d.wxi"]
    if k == 28 and level < 4:
        return ["inc", draw(st.sampled_from(name[level:]))] if safe or draw(st.integers(0, 19)) else ["inc", "nope.wxi"]
    return ["req", draw(st.sampled_from(name))]


@st.composite
def nodes(draw, depth, level, safe=False):
    return [draw(node(depth, level, safe)) for i in range(draw(st.integers(0, 4)))]


@st.composite
def decided(draw, vals, depth=3):
    """A condition whose value the variables settle."""
    k = draw(st.integers(0, 9)) if depth else 9
    if k == 0:
        return ["not", draw(decided(vals, depth - 1))]
    if k < 5:
        return [draw(st.sampled_from(["and", "or"])), [draw(decided(vals, depth - 1)) for i in range(draw(st.integers(2, 3)))]]
    if k == 5:
        return ["p", draw(decided(vals, depth - 1))]
    if k == 6:
        return ["b", draw(st.sampled_from([0, 1]))]
    nums = [n for n in sorted(vals) if vals[n].isdigit()]
    if draw(st.booleans()):
        t = [["i", i] for i in (0, 1, 2, 9, 10)] + [["s", i, "'"] for i in ("1", "10")] + [["v", "var." + n] for n in nums] * 3
        return ["cmp", draw(st.sampled_from(["<", "<=", ">", ">="])), draw(st.sampled_from(t)), draw(st.sampled_from(t))]
    t = [["s", x, q] for x in ("abc", "ABC", "1", "", "a\\new") for q in "\"'"] + [["n", "abc"], ["n", "aBC"], ["i", 1]] + [["v", "var." + n] for n in sorted(vals)]
    return ["cmp", draw(st.sampled_from(["=", "!=", "~="])), draw(st.sampled_from(t)), draw(st.sampled_from(t))]


@st.composite
def tables(draw):
    """Many conditions over variables which are all defined."""
    vals = {n: draw(st.sampled_from(["1", "0", "2", "10", "9", "abc", "ABC", "Abd", "1", "a\\new"])) for n in draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=5, unique=True))}
    ns = [["def", n, v, draw(st.sampled_from("\"'n")), draw(st.booleans()), "="] for n, v in sorted(vals.items())]
    for i in range(draw(st.integers(6, 16))):
        mark = lambda j: [["e", "E", [["Id", "%d.%d" % (i, j)]], []]]
        br = [[draw(decided(vals)), mark(j)] for j in range(draw(st.sampled_from([1, 1, 2, 3])))]
        ns.append(["if", br, mark(9) if draw(st.booleans()) else None])
    return {"files": {}, "mains": [[["e", "Wix", [], ns]]], "defs": [], "env": [], "arch": None, "inc": [], "pre": []}


LEVEL = {"a": 1, "b": 2, "c": 3, "d": 4}


@st.composite
def cases(draw):
    files = {}
    for p in PATHS:
        if draw(st.integers(0, 2)):
            files[p] = draw(nodes(2, LEVEL[os.path.basename(p)[0]]))
    mains = [draw(nodes(4, 0)) + draw(nodes(3, 0)) for i in range(draw(st.sampled_from([1, 1, 1, 2])))]
    defs = draw(st.lists(st.tuples(st.sampled_from(NAMES), st.one_of(st.none(), st.sampled_from(VALS))), max_size=3))
    env = draw(st.lists(st.tuples(st.sampled_from(ENVN), st.sampled_from(VALS)), max_size=2))
    return {"files": files, "mains": mains, "defs": [list(x) for x in defs], "env": [list(x) for x in env], "arch": draw(st.sampled_from([None, None, "x86", "x64", "intel", "ia64", "intel64"])),
            "inc": draw(st.sampled_from([["inc1", "inc2"], ["inc2", "inc1"], ["inc1"], []])), "pre": draw(nodes(1, 0)) if draw(st.booleans()) else []}


@st.composite
def settled(draw):
    """A document in which everything is defined and every file is there."""
    files = {}
    for p in PATHS:
        if draw(st.integers(0, 2)) or p in ("src/a.wxi", "src/b.wxi", "src/sub/c.wxi", "src/sub/d.wxi", "inc2/c.wxi", "inc2/sub/d.wxi"):
            files[p] = draw(nodes(2, LEVEL[os.path.basename(p)[0]], True))
    mains = [draw(nodes(4, 0, True)) + draw(nodes(4, 0, True)) + draw(nodes(3, 0, True)) for i in range(draw(st.sampled_from([1, 1, 1, 2])))]
    defs = [[n, draw(st.sampled_from(VALS))] for n in NAMES] + [[n, draw(st.sampled_from(["0", "1", "2", "10"]))] for n in NUMS]
    if draw(st.booleans()):
        defs.append(["u", draw(st.sampled_from(VALS))])
    n = draw(st.integers(0, len(defs)))
    # some from the command line, the others in the document
    pre = [["def", a, v, draw(st.sampled_from("\"'n")), draw(st.booleans()), draw(st.sampled_from(["=", " = ", "= "]))] for a, v in defs[:n]]
    mains[0] = [["e", "Wix", [], pre + mains[0]]] if pre else mains[0]
    env = [[e, draw(st.sampled_from(VALS))] for e in ENVN]
    return {"files": files, "mains": mains, "defs": defs[n:], "env": env, "arch": draw(st.sampled_from([None, None, "x86", "x64", "intel", "ia64", "intel64"])),
            "inc": draw(st.sampled_from([["inc1", "inc2"], ["inc2", "inc1"]])), "pre": draw(nodes(1, 0, True)) if draw(st.booleans()) and n == 0 else []}


# ---- rendering ----

def rterm(t):
    if t[0] == "v":
        return "$(%s)" % t[1]
    if t[0] == "i":
        return str(t[1])
    if t[0] == "s":
        return t[2] + t[1] + t[2]
    return t[1]


def rcond(c, top=True):
    if c[0] == "not":
        return "not " + rcond(c[1], False)
    if c[0] in ("and", "or"):
        s = (" %s " % c[0]).join(rcond(x, False) for x in c[1])
        return s if top else "(" + s + ")"
    if c[0] == "p":
        return "( " + rcond(c[1]) + ")"
    if c[0] == "b":
        return str(c[1])
    return "%s %s %s" % (rterm(c[2]), c[1], rterm(c[3]))


class Out:
    def __init__(self):
        self.parts, self.line = [], 1

    def w(self, s):
        self.parts.append(s)
        self.line += s.count("\n")


def pi(s):
    return s.replace("?>", "? >")


def render(ns, o, lines):
    """Writes the nodes; notes the lines of warnings."""
    for n in ns:
        k = n[0]
        if k == "e":
            o.w("<%s%s" % (n[1], "".join(" %s=%s" % (a, quoteattr(v)) for a, v in n[2])))
            if n[3]:
                o.w(">")
                render(n[3], o, lines)
                o.w("</%s>" % n[1])
            else:
                o.w("/>")
        elif k == "t":
            o.w(escape(n[1]))
        elif k == "c":
            o.w("<![CDATA[" + n[1] + "]]>")
        elif k == "k":
            o.w("<!-- $(var.Nope) <?if?> -->")
        elif k == "pi":
            o.w("<?%s %s?>" % (n[1], n[2]))
        elif k in ("if", "ifdef"):
            br = n[1] if k == "if" else n[2]
            for i, (c, kids) in enumerate(br):
                if k == "ifdef" and i == 0:
                    o.w("<?%s %s\n?>" % ("ifndef" if n[1] else "ifdef", c))
                else:
                    o.w("<?%s %s?>" % ("elseif" if i else "if", rcond(c)))
                render(kids, o, lines)
            if n[-1] is not None:
                o.w("<?else?>")
                render(n[-1], o, lines)
            o.w("<?endif\n?>")
        elif k == "def":
            v, q = quoting(n)
            o.w("<?define %s%s%s%s%s%s?>" % ("var." if n[4] else "", n[1], n[5], q, pi(v), q))
        elif k == "undef":
            o.w("<?undef %s%s ?>" % ("var." if n[2] else "", n[1]))
        elif k == "inc":
            o.w("<?include %s ?>" % n[1])
        elif k == "req":
            o.w("<?require %s?>" % n[1])
        elif k == "warn":
            lines[id(n)] = o.line
            o.w("<?warning %s?>" % n[1])
        elif k == "err":
            o.w("<?error %s?>" % n[1])


def quoting(n):
    v, q = n[2], n[3]
    if q == "n" and (v != v.strip() or v[:1] in ("", "'", '"')):
        q = '"'
    return v, "" if q == "n" else q


# ---- reference ----

class Ref:
    def __init__(self, case, texts, cwd):
        self.case, self.texts, self.cwd, self.warnings, self.depth = case, texts, cwd, [], 0
        self.vars, self.required = {}, set()
        self.hits = set()
        for n, v in case["defs"]:
            self.vars[n] = "1" if v is None else v
        self.env = dict((k, v) for k, v in case["env"])
        self.arch = {None: "x86", "x86": "x86", "intel": "x86", "x64": "x64", "ia64": "ia64", "intel64": "ia64"}[case["arch"]]

    def var(self, s, f):
        if "." not in s:
            raise Fail
        p, n = s.split(".", 1)
        if p == "var":
            return self.vars.get(n)
        if p == "env":
            return self.env.get(n)
        if p == "sys":
            if n == "CURRENTDIR":
                return self.cwd
            if n == "SOURCEFILEDIR":
                return os.path.basename(f)
            if n == "SOURCEFILEPATH":
                return os.path.join(self.cwd, f)
            if n == "BUILDARCH":
                return self.arch
        raise Fail

    def eval(self, s, f):
        out, i = "", 0
        while i < len(s):
            if s.startswith("$$(", i):
                out += "$"
                i += 1
            elif s.startswith("$$", i):
                out += "$"
                i += 2
            elif s.startswith("$(", i):
                d, j = 0, i + 1
                while j < len(s):
                    d += {"(": 1, ")": -1}.get(s[j], 0)
                    if d == 0:
                        break
                    j += 1
                if j == len(s) or "(" in s[i + 2:j]:
                    raise Fail
                v = self.var(s[i + 2:j], f)
                if v is None:
                    raise Fail
                self.hits.add("expansion")
                out += v
                i = j + 1
            else:
                out += s[i]
                i += 1
        return out

    def term(self, t, f):
        if t[0] == "v":
            return self.var(t[1], f)
        return t[1]

    def cond(self, c, f):
        if c[0] == "not":
            return not self.cond(c[1], f)
        if c[0] == "and":
            return all([self.cond(x, f) for x in c[1]])
        if c[0] == "or":
            return any([self.cond(x, f) for x in c[1]])
        if c[0] == "p":
            return self.cond(c[1], f)
        if c[0] == "b":
            return c[1] != 0
        a, b = self.term(c[2], f), self.term(c[3], f)
        if c[1] in ("=", "!=", "~="):
            a, b = (None if x is None else str(x) for x in (a, b))
            if c[1] == "~=":
                low = lambda s: None if s is None else "".join(chr(ord(x) + 32) if "A" <= x <= "Z" else x for x in s)
                return low(a) == low(b)
            return (a == b) == (c[1] == "=")
        v = []
        for x in (a, b):
            if isinstance(x, str):
                if not re.fullmatch(r"(0|[1-9][0-9]{0,5})", x):
                    raise Unspecified
                x = int(x)
            if x is None:
                raise Unspecified
            v.append(x)
        return {"<": v[0] < v[1], "<=": v[0] <= v[1], ">": v[0] > v[1], ">=": v[0] >= v[1]}[c[1]]

    def run(self, ns, f, el):
        # texts next to each other are one text in the document
        ms = []
        for n in ns:
            if n[0] in ("t", "c") and ms and ms[-1][0] == n[0]:
                ms[-1] = [n[0], ms[-1][1] + n[1]]
            else:
                ms.append(n)
        for n in ms:
            k = n[0]
            if k == "e":
                e = ET.SubElement(el, n[1], {a: self.eval(v, f) for a, v in n[2]})
                self.run(n[3], f, e)
            elif k in ("t", "c"):
                if k == "t" and not n[1].strip(" \n\t"):
                    continue
                v = self.eval(n[1], f)
                if len(el):
                    el[-1].tail = (el[-1].tail or "") + v
                else:
                    el.text = (el.text or "") + v
            elif k in ("if", "ifdef"):
                br = n[1] if k == "if" else n[2]
                done = False
                for i, (c, kids) in enumerate(br):
                    if not done:
                        t = (self.var(c, f) is not None) != n[1] if k == "ifdef" and i == 0 else self.cond(c, f)
                        if t:
                            done = True
                            self.hits.add("elseif" if i else k)
                            self.run(kids, f, el)
                    else:
                        self.hits.add("skipped")
                if not done and n[-1] is not None:
                    self.hits.add("else")
                    self.run(n[-1], f, el)
            elif k == "def":
                v, q = quoting(n)
                self.vars[n[1]] = self.eval(pi(v), f)
                self.hits.add("define")
            elif k == "undef":
                self.vars.pop(n[1], None)
            elif k in ("inc", "req"):
                if k == "req":
                    if n[1] in self.required:
                        self.hits.add("required before")
                        continue
                    self.required.add(n[1])
                cand = [n[1]] + [d + "/" + n[1] for d in self.case["inc"]] + [os.path.join(os.path.dirname(f), n[1])]
                for c in cand:
                    if c in self.texts:
                        self.hits.add("include")
                        self.depth += 1
                        if self.depth > 40:
                            raise Unspecified
                        self.run(self.case["files"][c], c, el)
                        self.depth -= 1
                        break
                else:
                    raise Fail
            elif k == "warn":
                self.warnings.append((os.path.basename(f), self.texts[f][1].get(id(n)), self.eval(n[1], f)))
            elif k == "err":
                self.eval(n[1], f)
                raise Fail


def norm(e):
    """(tag, attributes, text runs and children)"""
    out = []

    def text(t):
        if t and t.strip(" \n\t\r"):
            out.append(t.strip(" \n\t"))
    text(e.text)
    for c in e:
        out.append(norm(c))
        text(c.tail)
    return (e.tag, sorted(e.attrib.items()), out)


def exact(e):
    """the texts of elements without element children, as they are"""
    return [(x.tag, x.text or "") for x in e.iter() if not len(x) and (x.text or "").strip(" \n\t")]


class P23(Prop):
    id = "P23"
    needs = ("full",)
    quick = 250
    thorough = 3000
    rule = ("a case is one or two documents and up to eleven include files, nested conditions with compound expressions, definitions, expansions in attributes, text and CDATA, includes and requires along the search path, "
            "warnings, errors, with definitions from the command line and the environment; `wixl -E` has to print what the reference evaluator computes; non-trivial: a condition was decided and a variable or include used")
    strategy = staticmethod(lambda: st.one_of(cases(), settled(), settled(), settled(), tables()))

    def setup(self, paths, tmp):
        from ..core import Env
        env = Env()
        env.tmp, env.paths, env.p = tmp, paths, paths["full"]
        return env

    def shrink(self, case):
        def shr(ns):
            for i in range(len(ns)):
                yield ns[:i] + ns[i + 1:]
            for i, n in enumerate(ns):
                if n[0] == "e":
                    yield ns[:i] + n[3] + ns[i + 1:]
                    for j in range(len(n[2])):
                        yield ns[:i] + [["e", n[1], n[2][:j] + n[2][j + 1:], n[3]]] + ns[i + 1:]
                    for k in shr(n[3]):
                        yield ns[:i] + [["e", n[1], n[2], k]] + ns[i + 1:]
                elif n[0] in ("if", "ifdef"):
                    b = 1 if n[0] == "if" else 2
                    for j in range(1, len(n[b])):
                        yield ns[:i] + [n[:b] + [n[b][:j] + n[b][j + 1:]] + n[b + 1:]] + ns[i + 1:]
                    for j in range(len(n[b])):
                        yield ns[:i] + n[b][j][1] + ns[i + 1:]
                        for k in shr(n[b][j][1]):
                            yield ns[:i] + [n[:b] + [n[b][:j] + [[n[b][j][0], k]] + n[b][j + 1:]] + n[b + 1:]] + ns[i + 1:]
                    if n[-1] is not None:
                        yield ns[:i] + [n[:-1] + [None]] + ns[i + 1:]
                        for k in shr(n[-1]):
                            yield ns[:i] + [n[:-1] + [k]] + ns[i + 1:]
                elif n[0] in ("t", "c", "warn") and len(n[1]) > 1:
                    yield ns[:i] + [[n[0], n[1][:len(n[1]) // 2]]] + ns[i + 1:]
                    yield ns[:i] + [[n[0], n[1][len(n[1]) // 2:]]] + ns[i + 1:]
        if len(case["mains"]) > 1:
            for i in range(len(case["mains"])):
                yield dict(case, mains=case["mains"][:i] + case["mains"][i + 1:])
        for p in case["files"]:
            yield dict(case, files={k: v for k, v in case["files"].items() if k != p})
        for k in ("defs", "env", "inc"):
            for i in range(len(case[k])):
                yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
        if case["arch"]:
            yield dict(case, arch=None)
        for ns in shr(case["pre"]):
            yield dict(case, pre=ns)
        for i, m in enumerate(case["mains"]):
            for ns in shr(m):
                yield dict(case, mains=case["mains"][:i] + [ns] + case["mains"][i + 1:])
        for p, m in case["files"].items():
            for ns in shr(m):
                yield dict(case, files=dict(case["files"], **{p: ns}))

    def run(self, case, env):
        d = os.path.realpath(case_dir(env))
        for s in ("src/sub", "inc1", "inc2/sub"):
            os.makedirs(os.path.join(d, s))
        texts = {}
        # what may not stand outside the root element is left out there
        pre = [n for n in case["pre"] if n[0] in ("def", "undef", "warn", "k")]
        mains = []
        for i, m in enumerate(case["mains"]):
            o, lines = Out(), {}
            o.w("<?xml version='1.0' encoding='utf-8'?>\n")
            render(pre, o, lines)
            o.w("<Wix xmlns='http://schemas.microsoft.com/wix/2006/wi'\n>")
            render(m, o, lines)
            o.w("</Wix>")
            mains.append("src/m%d.wxs" % i)
            texts[mains[-1]] = ("".join(o.parts), lines)
        for p, ns in case["files"].items():
            o, lines = Out(), {}
            o.w("<?xml version='1.0' encoding='utf-8'?>\n<Include xmlns='http://schemas.microsoft.com/wix/2006/wi'\n>")
            render(ns, o, lines)
            o.w("</Include>")
            texts[p] = ("".join(o.parts), lines)
        for p, (t, _) in texts.items():
            open(os.path.join(d, p), "w", encoding="utf-8").write(t)
        want, failed, warnings, hits, unspec = [], False, [], set(), False
        for m, ns in zip(mains, case["mains"]):
            r = Ref(case, texts, d)
            hits = r.hits | hits
            root = ET.Element("Wix")
            try:
                r.run(pre, m, root)
                r.run(ns, m, root)
            except Fail:
                failed = True
            except Unspecified:
                unspec = True
            hits |= r.hits
            warnings += r.warnings
            want.append(root)
            if failed or unspec:
                break
        cmd = [env.p.wixl, "-E"]
        for n, v in case["defs"]:
            cmd += ["-D", n if v is None else n + "=" + v]
        for i in case["inc"]:
            cmd += ["-I", i]
        if case["arch"]:
            cmd += ["-a", case["arch"]]
        res = tools.run(cmd + mains, cwd=d, env=dict((k, v) for k, v in case["env"]))
        err = res.err.decode("utf-8", "replace")
        if unspec:
            return False, ["unspecified"]
        show = "\n".join("--- %s\n%s" % (m, texts[m][0]) for m in mains) + "\nstderr: " + err
        if failed:
            if res.rc == 0:
                raise Violation("the run succeeds, it has to fail\n" + show)
            if not err.strip():
                raise Violation("the run fails silently\n" + show)
            return True, ["error"] + sorted(hits)
        if res.rc != 0 or "CRITICAL" in err:
            raise Violation("the run fails (%d)\n%s" % (res.rc, show))
        docs = [x for x in re.split(rb"(?=<\?xml version)", res.out) if x.strip()]
        if len(docs) != len(mains):
            raise Violation("%d documents for %d inputs\n%s" % (len(docs), len(mains), show))
        for x, w in zip(docs, want):
            try:
                g = ET.fromstring(x)
            except ET.ParseError as e:
                raise Violation("the output is not well-formed: %s\n%s\n%s" % (e, x.decode("utf-8", "replace"), show))
            for e in g.iter():
                e.tag = e.tag.replace("{http://schemas.microsoft.com/wix/2006/wi}", "")
            if norm(g) != norm(w):
                raise Violation("the output is\n%s\nnot\n%s\n%s" % (x.decode("utf-8", "replace"), ET.tostring(w, encoding="unicode"), show))
            if exact(g) != exact(w):
                raise Violation("the texts are\n%r\nnot\n%r\n%s" % (exact(g), exact(w), show))
        got = re.findall(r"^(\S+?):(\d+): warning: ?(.*)$", err, re.M)
        exp = [(f, str(l), t) for f, l, t in warnings]
        if [(a, b, c.strip()) for a, b, c in got] != [(a, b, c.strip()) for a, b, c in exp]:
            raise Violation("the warnings are %r, not %r\n%s" % (got, exp, show))
        return bool(hits & {"if", "elseif", "else", "ifdef", "skipped"}) and bool(hits & {"expansion", "include", "define"}), sorted(hits)


PROP = P23
