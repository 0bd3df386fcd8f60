"""Path selection (P01 - P05, part of M02)."""
import itertools
from .core import *
from . import script, enc
from .script import Script

TYPES = ["None", "ErrorOccurred", "HeaderStart", "HeaderAttribName", "HeaderAttribValue", "HeaderEnd", "DocAttribValue", "DocAttribEnd",
         "TagAttribName", "TagAttribValue", "OpenTag", "CloseTag", "CloseTagIm", "Content", "Exit"]
T = {n: k for k, n in enumerate(TYPES)}
OPEN, CLOSE, CLOSEIM, CONT, AN, AV = T["OpenTag"], T["CloseTag"], T["CloseTagIm"], T["Content"], T["TagAttribName"], T["TagAttribValue"]
HS, HN, HV, HE = T["HeaderStart"], T["HeaderAttribName"], T["HeaderAttribValue"], T["HeaderEnd"]
ALL = ["ISO1", "UTF8", "UTF16BE", "UTF16LE", "UCS2BE", "UCS2LE", "UCS4BE", "UCS4LE"]


def cls(e):
    return "IsoLatin" if e.startswith("ISO") else e


def b(e, s):
    """text s in encoding e, references for characters that do not fit (as the library prints them)"""
    out = b""
    for c in s:
        x = enc.char(e, ord(c))
        out += x if x is not None else b"".join(enc.char(e, ord(k)) for k in "&#x%x;" % ord(c))
    return out


def typ(t):
    return (t & 0xFFFFFFFF).to_bytes(4, "big")


class X:
    """an expression: steps [(kind, follow, names|None, ..)], independent of how it is written"""

    def __init__(self, steps, out="", outf=False, ranges=()):
        self.steps, self.out, self.outf, self.ranges = steps, out, outf, list(ranges)

    def calls(self, e, t):
        """definitions by operators, one for every choice of the alternatives"""
        alts = [s[2] if s[0] in ("t", "a") and s[2] is not None else [None] for s in self.steps]
        res = []
        for ch in itertools.product(*alts):
            a = []
            for s, c in zip(self.steps, ch):
                if s[1]:
                    a.append(b"d")
                if s[0] == "t":
                    a += [b"T"] if c is None else [b"t", b(e, c)]
                elif s[0] == "a":
                    a += [b"A"] if c is None else [b"a", b(e, c)]
                elif s[0] == "i":
                    n, v = s[2]
                    a += [b"i", b(e, n), b(e, v)] if n is not None and v is not None else [b"I", b(e, v)] if n is None else [b"j", b(e, n)]
                elif s[0] == "c":
                    a.append(b"c")
            if self.outf:
                a.append(b"d")
            if self.out == "content":
                a.append(b"o")
            for q in self.ranges:
                a += [q[0].encode()] + list(q[1:])
            res.append(("def",) + tuple(a) + (b"=", typ(t)))
        return res

    def text(self, r=None, sp=0.0):
        """the expression as text, with spaces where they are allowed"""
        def g():
            return "".join(r.choice(" \t\r") for _ in range(r.randint(1, 2))) if r and r.random() < sp else ""

        def ids(names):
            return "*" if names is None else names[0] if len(names) == 1 else "{" + g() + (g() + "," + g()).join(names) + g() + "}"

        def quote(v):
            if r is None or r.random() < .4:
                if v and all(c.isalnum() for c in v):
                    return v
            q = '"' if "'" in v else "'" if '"' in v or r is None else r.choice("\"'")
            return q + v + q
        o, first, rng_ = "", True, list(self.ranges)
        for n, s in enumerate(self.steps):
            sl = "//" if s[1] else "/"
            if s[0] == "t":
                o += (sl if s[1] or not first or (r is None or r.random() < .7) else "") + g() + ids(s[2]) + g()
            elif s[0] == "a":
                o += (sl + g() if s[1] else "/" + g() if r and r.random() < .3 and not o.endswith("/") else "") + "@" + g() + ids(s[2]) + g()
            elif s[0] == "i":
                o += (sl + g() if s[1] else "") + "[" + g() + "@" + g() + s[2][0] + g() + "=" + g() + quote(s[2][1]) + g() + "]" + g()
            elif s[0] == "c":
                o += "~" + g()
            first = False
            if rng_ and s[0] in "ti" and ((r and r.random() < .3) or all(z[0] in "ac" for z in self.steps[n + 1:])):
                z = "%d" if r is None or r.random() < .8 else "%04d" if r.random() < .7 else "%08d"    # leading zeros
                for q in rng_:
                    o += {"x": "[%d]", "f": "[%d,]", "r": "[%d,%d]", "u": "[0,%d]"}[q[0]].replace("%d", z) % q[1:] + g()
                rng_ = []
        if self.out == "content":
            o += ("//" + g() if self.outf else "") + "(" + g() + ")" + g()
        assert not rng_, (o, self.steps, self.ranges)
        return o


def ranges(r, text=False):
    m = lambda: r.choice([0, 0, 1, 1, 2, 3, 5] if r.random() < .95 else [12, 128, 256, 1000, 65536, 99999999])
    k = r.choice("xfr" if text else "xfuru")
    q = (k, m(), m()) if k == "r" else (k, m())
    return [q] + (ranges(r, text) if r.random() < .15 else [])


class Names:
    def __init__(self, tags, attrs, vals):
        self.tags, self.attrs, self.vals = tags, attrs, vals


PLAIN = Names(["a", "b", "c"], ["x", "y"], ["1", "2"])
ODD = Names(["a", "aa", "b-c", "a:b", "\u00e9", "\u20ac", "\U00010400", "A.1", "%+$!"[:3], "a\u00e9"], ["x", "x-1", "\u00fc\u20ac", "xml:id"],
            ["", "1", "a b", "1<2", "\u20ac\u00e9 z", "x]y", "a/b", "=", "t\tq"])


def expr(r, nm=PLAIN, text=False, ranged=.2, alt=True):
    steps = []
    n = r.choice([1, 1, 2, 2, 2, 3, 3, 4])
    for k in range(n):
        names = None if r.random() < .2 else [r.choice(nm.tags) for _ in range(r.choice([1, 1, 1, 1, 2, 3]) if alt and text else 1)]
        steps.append(("t", r.random() < .4, names))
        while r.random() < .15:
            nv = (r.choice(nm.attrs), r.choice(nm.vals))
            if not text and r.random() < .3:
                nv = (None, nv[1]) if r.random() < .5 else (nv[0], None)
            steps.append(("i", not text and r.random() < .2, nv))
    x = r.random()
    if x < .3:
        out, outf = "content", r.random() < .3
    elif x < .6:
        steps.append(("a", r.random() < .3, None if r.random() < .3 else [r.choice(nm.attrs) for _ in range(r.choice([1, 1, 2]) if alt and text else 1)]))
        out, outf = "value", False
        if not text and r.random() < .15:       # the content of elements with the attribute
            out, outf = "content", r.random() < .3
    else:
        out, outf = "", False
        if x > .85:
            steps.append(("c", False, None))
    rg = ranges(r, text) if out and r.random() < ranged else []
    if out == "content" and outf and text and steps[-1][0] == "i":
        outf = False
    return X(steps, out, outf, rg)


def doc(r, nm=PLAIN, e="UTF8", depth=4, size=18, header=.2, open_end=.1):
    ev = []
    if r.random() < header:
        ev.append((HS, b(e, r.choice(["xml"] + nm.tags))))
        for _ in range(r.randint(0, 2)):
            ev += [(HN, b(e, r.choice(nm.attrs))), (HV, b(e, r.choice(nm.vals)))]
        ev.append((HE, b""))
    stk = []
    n = r.randint(3, size)
    while len(ev) < n or stk:
        x = r.random()
        if len(ev) >= n:
            if r.random() < open_end:
                break
            x = .9
        if x < .45 and len(stk) < depth or not stk:
            t = b(e, r.choice(nm.tags))
            ev.append((OPEN, t))
            stk.append(t)
            while r.random() < .4:
                ev += [(AN, b(e, r.choice(nm.attrs))), (AV, b(e, r.choice(nm.vals)))]
            if r.random() < .15:
                ev.append((CLOSEIM, b""))
                stk.pop()
        elif x < .65:
            ev.append((CONT, b(e, r.choice(nm.vals + ["t"]))))
        else:
            ev.append((CLOSE, stk.pop()))
    return ev


def events(ev):
    return [("ev", t, k) if k else ("ev", t) for t, k in ev]


def kinds(r):
    return {"it": r.randrange(5), "alt": r.randrange(3), "push": r.randrange(2)}


def tidy(ops):
    """a value of an attribute comes directly behind its name, as in every document the scanner accepts:
    others are left out, whatever object the event is for"""
    named, out = {}, []
    for o in ops:
        if o[0] in ("cp", "as"):
            named[o[1]] = named.get(o[2], False)
        elif o[0] == "ev":
            if o[2] in (AV, HV) and not named.get(o[1], False):
                continue
            named[o[1]] = o[2] in (AN, HN)
        elif o[0] in ("new", "rm"):
            named[o[1]] = False
        out.append(o)
    return out


def signed(r, ops):
    """negative and large types for some of the runs (the order of the types and which are equal stays; the text of an automaton shows small ones)"""
    if r.random() > .25 or any(o[0] == "str" for o in ops):
        return ops
    f = r.choice([lambda t: -t, lambda t: -t if t % 2 else t, lambda t: t << 16, lambda t: 0x7FFFFFFF - t, lambda t: t - 0x80000000])

    def g(t):
        t = int.from_bytes(t, "big")
        return typ(f(t)) if typ(f(t)) != typ(0) and t else typ(t)

    def one(o):
        if o[0] == "def" and len(o) > 3 and o[-2] == b"=":
            return o[:-1] + (g(o[-1]),)
        if o[0] == "add":
            return o[:3] + (g(o[3]),) + o[4:]
        return o
    return [one(o) for o in ops]


def scr(r, ops, atm="UTF8", src=None, kind=None, hp=None):
    ops = signed(r, ops)
    k = kind or ("path%s-%s" % (cls(src), cls(atm)) if src else "path%s-%s" % (r.choice("PPD"), cls(atm)))
    return Script(k, hp or kinds(r), {"src": src or "UTF8", "atm": atm}, tidy(ops))


def hits(rep, runs):
    n = sum(1 for x in runs for o in x["ops"] if o[0] == "look" and o[3][1])
    if n:
        rep.info["looks ahead that tell something"] = rep.info.get("looks ahead that tell something", 0) + n
    n = sum(1 for x in runs for o in x["ops"] if o[0] == "ev" and o[3][1])
    rep.info["events with selections"] = rep.info.get("events with selections", 0) + n


def judge(rep, scs, label):
    hits(rep, script.judge(rep, scs, "PathTrace", label))


def menu(rep, cfgs):
    """the design model is checked; documents printed by the tours: (expressions of the menu as calls, events)"""
    out = []
    for c in cfgs:
        for h in script.tour(rep, "PathTour", "DOC", cfg=c):
            out.append(([[bytes(a) for a in x] for x in h["x"]], [(T[t], bytes(k)) for t, k in h["d"]]))
    return out


def design(rep, cfgs):
    for c in cfgs:
        r = tlc("PathModel", cfg=c)
        if not r.ok:
            raise CheckError("specification PathModel inconsistent: %s\n%s" % (r.violated, r.state[:3000]))
        rep.add_tlc(r)
        rep.info.setdefault("design_models", {})[c] = {"states": r.distinct, "generated": r.generated}


def calls_of(menu_expr, t):
    # numbers of the menu (indices) are sequences of one number, names are sequences of characters too: told apart by the letter
    a, k = [], 0
    while k < len(menu_expr):
        l = menu_expr[k]
        n = {b"t": 1, b"a": 1, b"i": 2, b"I": 1, b"j": 1, b"f": 1, b"u": 1, b"r": 2, b"x": 1}.get(l, 0)
        a.append(l)
        for q in menu_expr[k + 1:k + 1 + n]:
            a.append(q[0] if l in (b"f", b"u", b"r", b"x") else q)
        k += 1 + n
    return ("def",) + tuple(a) + (b"=", typ(t))


def p01(rep):
    r = rng("p01")
    design(rep, ["PathModel.cfg"] if quick() else ["PathModelBig.cfg", "PathModelPairs.cfg"])
    tour = menu(rep, ["PathTour.cfg"])
    docs = [d for _, d in menu(rep, ["PathDocs.cfg"])]
    exprs = sorted({tuple(x[0]) for x, _ in tour})
    out = []
    for x, d in r.sample(tour, min(len(tour), scale(5000, 40000))):
        out.append(scr(r, script.plain([calls_of(x[0], 7)] + events(d), [])))
    for d in r.sample(docs, min(len(docs), scale(900, 20000))):      # all expressions of the menu at once
        es = list(exprs)
        r.shuffle(es)
        out.append(scr(r, script.plain([calls_of(x, 100 + k) for k, x in enumerate(es)] + events(d), [])))
    judge(rep, out, "selection, documents of the specification")
    out = []
    for _ in range(scale(3000, 40000)):
        nm, e = (PLAIN, "UTF8") if r.random() < .6 else (ODD, r.choice(ALL))
        n = r.choice([1, 1, 2, 3, 6])
        ops = []
        for k in range(n):
            ops += expr(r, nm).calls(e, r.choice([k + 1, k + 1, -1 - k, 0x7FFFFFFF - k]))
        if r.random() < .2:     # continued after an output
            ops = [sum([list(o[1:]) for o in ops[:2]], ["def"]) if False else o for o in ops]
            c = ops[0]
            if c[-3] not in (b"o",) and b"a" not in c[1:] and b"A" not in c[1:] and b"d" not in c[-3:]:
                ops[0] = c + tuple(expr(r, nm).calls(e, 77)[0][1:])
        ops += events(doc(r, nm, e, depth=r.choice([2, 4, 6]), size=r.choice([8, 18, 30])))
        out.append(scr(r, script.plain(ops, []), e))
    judge(rep, out, "selection, random expressions and documents")
    if not rep.violations:
        judge(rep, large(r), "selection, long names and many expressions")


def long_names(r):
    for n in scale((1024, 1025, 1500), (1000, 1023, 1024, 1025, 1030, 3000)):
        s = "n" * n
        for e in scale([r.choice(["UTF8", "UTF16LE"])], ["UTF8", "UTF16LE", "UCS4BE"]):
            ops = X([("t", False, [s])]).calls(e, 1) + X([("t", False, ["a"]), ("i", False, ("x", s))]).calls(e, 2)
            ops += events([(OPEN, b(e, s)), (CLOSE, b(e, s)), (OPEN, b(e, s[:-1])), (CLOSE, b(e, s)), (OPEN, b(e, s + "n")), (CLOSEIM, b""),
                           (OPEN, b(e, "a")), (AN, b(e, "x")), (AV, b(e, s)), (CLOSEIM, b""), (OPEN, b(e, "a")), (AN, b(e, "x")), (AV, b(e, s[:1024])), (CLOSEIM, b"")])
            yield scr(r, script.plain(ops, []), e)


SIZES = [127, 128, 129, 255, 256, 257, 258, 511, 512, 513]


def large(r):
    """names, values, numbers of expressions and of elements of the sizes where counters of few bits end: (encoding, operations)"""
    def word(n):
        return "".join(r.choice("abcdefgh") for _ in range(n))

    def alike(s):
        """names that differ from s a little: the last, the first, a middle character, shorter or longer by one or a power of two"""
        n, k = len(s), r.randrange(len(s))
        return [x for x in {s[:-1] + "z", "z" + s[1:], s[:k] + "z" + s[k + 1:], s[:-1], s + s[-1:], s[:n - 256], s[:n - 128], s + s[:256], s + s[:128], s[:n % 256], s[:-1] + chr(ord(s[-1]) ^ 1)} if x and x != s]
    out = []
    for n in SIZES + [1023, 1024, 1025] + scale([65540], [4096, 65535, 65536, 65537, 65540]):
        for e in ["UTF8"] if n > 60000 else [r.choice(["UTF8", "ISO1"]), r.choice(["UCS4LE", "UTF16BE"])]:
            s = word(n)
            ops = X([("t", False, [s])]).calls(e, 1) + X([("t", True, [s]), ("a", False, [s])], "value").calls(e, 2) + X([("t", False, ["a"]), ("i", False, ("x", s))], "content").calls(e, 3)
            if n < 2000:
                ops += X([("t", False, ["a"]), ("i", False, (s, "1")), ("a", False, [s])], "value").calls(e, 4)
            ev = [(OPEN, s), (AN, s), (AV, "1"), (CLOSEIM, "")]
            for q in r.sample(alike(s), 4 if n < 2000 else 2):
                ev += [(OPEN, q), (AN, s), (AV, "1"), (CLOSEIM, "")] * (n < 2000 or r.random() < .5) + [(OPEN, s), (AN, q), (AV, "2"), (CLOSEIM, "")] * (n < 2000) + [(OPEN, "a"), (AN, "x"), (AV, q), (CONT, "t"), (CLOSE, "a")]
            ev += [(OPEN, "a"), (AN, "x"), (AV, s), (CONT, "t"), (CLOSE, "a"), (OPEN, "a"), (AN, s), (AV, "1"), (AN, s), (AV, "2"), (CLOSE, "a")]
            out.append((e, ops, [(t, b(e, k)) for t, k in ev]))
    # many expressions in one automaton, one path with many branches
    for n in scale([126, 130, 254, 260], [126, 127, 128, 129, 130, 254, 256, 258, 300, 514, 1030]):
        for kind in range(3):
            ops = []
            for k in range(n):
                x = [X([("t", False, ["n%d" % k])]), X([("t", True, ["r"]), ("t", False, ["n%d" % k])], "content"), X([("t", False, ["r"]), ("t", False, ["n%d" % (k // 2)]), ("a", False, ["x%d" % (k % 5)])], "value")][kind]
                ops += x.calls("UTF8", k + 1)
            ev = [] if kind == 0 else [(OPEN, b"r")]
            for k in sorted({0, 1, 2, 62, 63, 64, 124, 125, 126, 127, 128, n // 2, n - 3, n - 2, n - 1, n}):
                ev += [(OPEN, b"n%d" % (k // 2 if kind == 2 else k)), (AN, b"x%d" % (k % 5)), (AV, b"1"), (CONT, b"t"), (CLOSE, b"")]
            out.append(("UTF8", ops, ev))
    # many steps
    for n in scale([126, 130, 260], [62, 64, 66, 126, 128, 130, 254, 256, 258, 300]):
        x = X([("t", k % 50 == 49, ["n%d" % k]) for k in range(n)], "content")
        y = X([("t", False, ["n%d" % k]) for k in range(n - 1)] + [("a", False, ["x"])], "value")
        ev = []
        for k in range(n):
            ev += [(OPEN, b"n%d" % k)]
            if k in (n - 1, n - 2) or r.random() < .05:
                ev += [(AN, b"x"), (AV, b"1"), (OPEN, b"o"), (CONT, b"t"), (CLOSEIM, b""), (CONT, b"t")]
        out.append(("UTF8", x.calls("UTF8", 1) + y.calls("UTF8", 2), ev + [(CONT, b"t")]))
    return [scr(r, script.plain(ops + events(ev), []), e) for e, ops, ev in out]


def counted(r):
    """many elements with the same name, indices around the sizes where counters of few bits end"""
    out = []
    for n in scale([300], [300, 700, 3000]):
        for kind in range(3):
            ops = []
            for k, m in enumerate([0, 126, 127, 128, 129, 254, 255, 256, 257, 258, n - 2, n - 1, n, n + 1, 65535]):
                q = r.choice([("x", m), ("f", m), ("u", m), ("r", max(0, m - r.randint(0, 3)), m + r.randint(0, 2))])
                x = [X([("t", False, ["a"])], "content", False, [q]), X([("t", True, ["a"]), ("a", False, ["x"])], "value", False, [q]), X([("t", False, ["a"]), ("t", False, ["b"])], "content", False, [q])][kind]
                ops += x.calls("UTF8", k + 1)
            ev = [(OPEN, b"a")]
            for k in range(n):
                ev += [[(CONT, b"t")], [(AN, b"x"), (AV, b"1")], [(OPEN, b"b"), (CONT, b"t"), (CLOSE, b"b")]][kind]
            out.append(scr(r, script.plain(ops + events(ev), [])))
    for n in scale([66000], [33000, 66000, 140000]):
        ops = []
        for k, q in enumerate([("x", 32767), ("x", 65535), ("x", 65536), ("r", 65534, 65537), ("f", n - 2), ("u", 2), ("x", n - 1)]):
            ops += X([("t", False, ["a"])], "content", False, [q]).calls("UTF8", k + 1)
        out.append(scr(r, script.plain(ops + events([(OPEN, b"a")] + [(CONT, b"t")] * n), []), kind="pathP-UTF8"))
    return out


def p02(rep):
    r = rng("p02")
    design(rep, ["PathModelPairs.cfg"] if not quick() else ["PathModelPairsQuick.cfg"])
    out = []
    for _ in range(scale(1300, 20000)):
        nm, e = (PLAIN, "UTF8") if r.random() < .8 else (ODD, r.choice(ALL))
        xs = []
        while len(xs) < r.choice([2, 3, 4, 8]):
            x = expr(r, nm)
            if xs and r.random() < .6:      # expressions that share steps
                y = r.choice(xs)
                k = r.randint(1, len(y.steps))
                st = [s for s in y.steps[:k] if s[0] in "ti"]
                z = [s for s in x.steps if s[0] != "t" or r.random() < .5]
                x = X(st + [s for s in z if not (s[0] == "c" and not st + z[:-1])], x.out, x.outf, x.ranges) if r.random() < .8 else X(y.steps, y.out, y.outf, y.ranges)
            xs.append(x)
        d = events(doc(r, nm, e, size=r.choice([10, 20, 30])))
        cs = [c for k, x in enumerate(xs) for c in x.calls(e, k + 1)]
        for _ in range(2):
            r.shuffle(cs)
            out.append(scr(r, script.plain(cs + d, []), e))
        for c in cs[:r.choice([0, 2, 8])]:
            out.append(scr(r, script.plain([c] + d, []), e))
    judge(rep, out, "sets of expressions and each alone")
    # very many expressions
    out = []
    for n in scale([300, 1000], [300, 1000, 2500]):
        xs = [X([("t", False, ["r"]), ("t", k % 3 == 0, ["n%d" % k])] + ([("a", False, ["x%d" % (k % 7)])] if k % 2 else []), "value" if k % 2 else "", False, []) for k in range(n)]
        d = [(OPEN, b"r")]
        for k in r.sample(range(n), 12):
            d += [(OPEN, b"n%d" % k), (AN, b"x%d" % (k % 7)), (AV, b"1"), (OPEN, b"n%d" % r.choice([3, 6, 9, k])), (CLOSEIM, b""), (CLOSE, b"n%d" % k)]
        cs = [c for k, x in enumerate(xs) for c in x.calls("UTF8", k + 1)]
        r.shuffle(cs)
        out.append(scr(r, script.plain(cs + events(d), [])))
    judge(rep, out, "many expressions")


def p03(rep):
    r = rng("p03")
    design(rep, ["PathModel.cfg"] if quick() else ["PathModelBig.cfg"])
    out = []
    for _ in range(scale(1800, 20000)):
        xs = [expr(r) for _ in range(r.choice([1, 2, 3]))]
        cs = [c for k, x in enumerate(xs) for c in x.calls("UTF8", k + 1)]
        target = doc(r, header=0, open_end=0, size=12)
        pre = []
        for _ in range(r.choice([1, 2, 4])):
            pre += doc(r, header=0, open_end=0, size=r.choice([6, 14]), depth=r.choice([2, 5, 8]))
        path = [(OPEN, r.choice([b"a", b"b"])) for _ in range(r.choice([0, 1, 2, 3]))]
        ev = []
        for p in path:
            ev.append(p)
            if r.random() < .4:
                ev += pre[:0] + doc(r, header=0, open_end=0, size=6)
        ev += pre + target
        for p in reversed(path):
            ev += [(CONT, b"t")] * (r.random() < .3) + [(CLOSE, p[1])]
        hp = kinds(r)
        for it in r.sample(range(5), 2):
            h = dict(hp)
            h["it"] = it
            out.append(scr(r, script.plain(cs + events(ev), []), hp=h))
    judge(rep, out, "siblings before the path")
    out = []
    for depth, width in scale([(60, 3), (300, 0), (5, 120)], [(60, 5), (600, 0), (2000, 0), (5, 500), (100, 6)]):
        for xs in ([X([("t", True, ["a"]), ("t", False, ["b"])], "content")], [X([("t", False, ["a"]), ("t", True, ["c"]), ("a", False, ["x"])], "value")],
                   [X([("t", False, ["a"])], "content"), X([("t", True, ["c"])], "", False)], [X([("t", False, ["a"]), ("t", False, ["c"])], "content", False, [("x", 1)])]):
            ev = [(OPEN, b"a"), (CONT, b"1")]
            for k in range(depth):
                ev += [(OPEN, r.choice([b"a", b"b"])) if k % 5 else (OPEN, b"d")]
                for _ in range(width):
                    ev += [(OPEN, r.choice([b"b", b"c"])), (AN, b"x"), (AV, b"1"), (CONT, b"t"), (CLOSE, b"c")]
                if k % 7 == 0:
                    ev += [(CONT, b"u")]
            for k in range(depth):
                ev += [(CLOSE, b"a"), (CONT, b"t")] if k % 9 == 0 else [(CLOSE, b"a")]
            ev += [(OPEN, b"c"), (AN, b"x"), (AV, b"2"), (CONT, b"v"), (CONT, b"w"), (CLOSE, b"c"), (CONT, b"2"), (CLOSE, b"a"), (OPEN, b"a"), (OPEN, b"b"), (CONT, b"3")]
            for it in (0, 1, 2):
                h = kinds(r)
                h["it"] = it
                out.append(scr(r, script.plain([c for k, x in enumerate(xs) for c in x.calls("UTF8", k + 1)] + events(ev), []), hp=h))
    # more siblings than a counter of 16 bits has values
    for n in scale([65600], [32800, 65600, 131200]):
        xs = [X([("t", False, ["a"]), ("t", True, ["c"])], "content"), X([("t", False, ["a"])], "content"), X([("t", True, ["b"]), ("t", False, ["c"])], "content")]
        ev = [(OPEN, b"a"), (OPEN, b"b"), (OPEN, b"c"), (CONT, b"t"), (CLOSE, b"c"), (CLOSE, b"b")] + [(OPEN, b"b"), (CLOSE, b"b")] * n
        ev += [(CONT, b"u"), (OPEN, b"b"), (OPEN, b"c"), (CONT, b"t"), (CLOSE, b"c"), (CONT, b"t"), (CLOSE, b"b"), (CONT, b"t"), (CLOSE, b"a"), (CONT, b"t"), (OPEN, b"c"), (CONT, b"t")]
        out.append(scr(r, script.plain([c for k, x in enumerate(xs) for c in x.calls("UTF8", k + 1)] + events(ev), []), kind="pathP-UTF8"))
    judge(rep, out, "deep and wide documents")


FEED = [(OPEN, b"a"), (AN, b"a"), (AV, b"1"), (AN, b"1"), (AV, b"a"), (CONT, b"t"), (OPEN, b"1"), (AN, b"a"), (AV, b"a"), (CONT, b"t"), (CONT, b"u"), (CLOSE, b"1"),
        (OPEN, b"a"), (CONT, b"t"), (CONT, b"v"), (OPEN, b"b"), (AN, b"x"), (AV, b"2"), (CLOSEIM, b""), (CLOSE, b"a"), (CONT, b"w"), (CLOSE, b"a"), (OPEN, b"b"), (CLOSEIM, b"")]


def mutate(r, s):
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.randint(0, len(s))
        x = r.random()
        c = r.choice("/@*[](){}~,;:=\"' \ta1-0" + "\n<>!?&#\u00e9")
        if x < .4:
            s = s[:k] + c + s[k:]
        elif x < .7 and s:
            s = s[:max(k - 1, 0)] + s[k:]
        elif x < .85 and s:
            s = s[:max(k - 1, 0)] + c + s[k:]
        elif len(s) > 2:
            i, j = sorted(r.sample(range(len(s)), 2))
            s = s[:i] + s[j:] if r.random() < .5 else s[:i] + s[i:j] * 2 + s[j:]
    return s


def p04(rep):
    r = rng("p04")
    out = []
    feed = {e: events([(t, b(e, k.decode())) for t, k in FEED]) for e in ALL}
    # every short text
    alpha = "/@*[](){}~,=a1\" "
    short = ["".join(t) for n in range(0, scale(4, 5)) for t in itertools.product(alpha, repeat=n)]
    probe = []
    rooted = set(s for s in short if set(s) <= set("/[]1, "))
    out += [scr(r, script.plain([("add", b("UTF8", s), typ(1))], []), "UTF8", "UTF8") for s in sorted(rooted)]
    for s in short:
        if s in rooted:
            continue
        probe.append(("add", b("UTF8", s), typ(len(probe) + 1)))
        if len(probe) == 60:
            out.append(scr(r, script.plain(probe + feed["UTF8"], []), "UTF8", "UTF8"))
            probe = []
    out.append(scr(r, script.plain(probe + feed["UTF8"], []), "UTF8", "UTF8"))
    judge(rep, out, "all short texts")
    # expressions of the grammar, as text and by operators, and their mutations
    out = []
    for _ in range(scale(3000, 40000)):
        atm, src = ("UTF8", "UTF8") if r.random() < .5 else (r.choice(ALL), r.choice(ALL))
        nm = PLAIN if r.random() < .5 else ODD
        ops = []
        for k in range(r.choice([1, 2, 4])):
            x = expr(r, nm, text=True)
            t = x.text(r, r.choice([0, 0, .2, .6]))
            if any(enc.char(src, ord(c)) is None for c in t):
                continue
            ops.append(("add", b(src, t), typ(10 * k + 1)))
            if r.random() < .5:
                ops += x.calls(atm, 10 * k + 2)
            m = mutate(r, t)
            if "&#" not in m and not any(enc.char(src, ord(c)) is None for c in m):
                ops.append(("add", b(src, m), typ(10 * k + 3)))
        if ops:
            if r.random() < .2:
                r.shuffle(ops)
            out.append(scr(r, script.plain(ops + events(doc(r, nm, atm, size=r.choice([12, 24]))), []), atm, src))
    judge(rep, out, "random expressions as text")
    out = []
    # all single characters in a name, in a value and alone
    for src in ALL:
        cps = list(range(1, 256)) + [0x100, 0x17F, 0x20AC, 0x3A3A, 0x3A00, 0x2F2F, 0x2A40, 0xFFFD, 0x10000, 0x10FFFF]
        for k in range(0, len(cps), 4):
            atm = r.choice(ALL)
            ops, ev = [], [(OPEN, b(atm, "r"))]
            for c in cps[k:k + 4]:
                if enc.char(src, c) is None:
                    continue
                ch = chr(c)
                for t in ("/r/n%sm" % ch, "/r/n%s" % ch, "%sn" % ch, "/r/n@%s" % ch, "/r[@x='%s']" % ch, '/r[@x="q%s"]()' % ch, "/r[@x=v%s]" % ch, "/r%s" % ch, "/r[1%s]()" % ch, "/{n%s,b}" % ch):
                    ops.append(("add", b(src, t), typ(len(ops) + 1)))
                for n in ("n%sm" % ch, "n%s" % ch):
                    ev += [(OPEN, b(atm, n)), (AN, b(atm, ch)), (AV, b(atm, "1")), (CLOSEIM, b"")]
            ev = [ev[0]] + sum(([(AN, b(atm, "x")), (AV, b(atm, v))] for c in cps[k:k + 4] for v in (chr(c), "q" + chr(c), "v" + chr(c))), []) + ev[1:]
            out.append(scr(r, script.plain(ops + events(ev), []), atm, src))
    judge(rep, out, "expressions as text")
    out = []
    # namespaces, references, long names and numbers
    odd = ["/a::b", "::a", "a::", "/a:b:c", "/a[@x='::']", "/a[@x='&#65;']", "/a[@x='&amp;']", "/a[@x='a&b']", "/a[@x='&#;']", "/a[@x='&#x;']", "/a[@x='&#x41;&#66;']", "/a[@x='&#65']",
           "/a[@x='&#zz;']", "/a[12345678]()", "/a[123456789]()", "/a[00000001]()", "/a[1,123456789]()", "/a[0,99999999]()", "/a[-1]()", "/a[,1]()", "/a[1,,2]()", "/a[ 1 , 2 ]()", "/a[2,1]()",
           "/a[@x=1][@y=2]()", "/a[1,3][2,5]()", "/a[1,][0,2]()", "", "/", "//", "///a", "/a//", "/a/", "/a/b/", "//@x", "@x", "@*", "@", "~", "/a~", "//a~", "/a~~", "/a()()", "()", "//()", "( )", "/{a,b}/{b,1}", "/{a}", "/{}", "/{a,}", "/{,a}", "/a{b}",
           "/a@{x,y}", "/a@{x , y }", "/*", "//*", "/**", "/a*", "*", "a", "a/b", "a@x", "a[@x=1]", "/a[@x]", "/a[@x=]", "/a[@=1]", "/a[@x='1]", "/a[@x=\"1']", "/a[@x='']", "/a@x@y", "/a@x/b", "/a@x()", "/a@x[1]", "/a()[1]", "/a[1]/b[2]()", "/a [ @ x = 1 ] ( )",
           " /a", "/ a", "/a ", "/a / b", "/ /a", "/a/ /b", "/" + "n" * 1500, "/a[@x='" + "v" * 1500 + "']"]
    for src in ALL:
        for atm in scale([r.choice(ALL)], ALL):
            for k in range(0, len(odd), 10):
                ops = [("add", b(src, t), typ(j + 1)) for j, t in enumerate(odd[k:k + 10]) if t not in ("", "/", "//")]
                vals = ["::", "A", "&", "&amp;", "a&b", "&#;", "&#x;", "AB", "&#65", "&#zz;", "1", "2", "", "v" * 1500]
                ev = [(OPEN, b(atm, "a"))] + sum(([(AN, b(atm, "x" if j % 4 else "y")), (AV, b(atm, v))] for j, v in enumerate(vals)), [])
                ev += [(CONT, b"")] * 4 + [(OPEN, b(atm, "b")), (AN, b(atm, "x")), (AV, b(atm, "1")), (CONT, b""), (CONT, b""), (CLOSE, b""), (CLOSE, b""), (OPEN, b(atm, "n" * 1500)), (CLOSEIM, b"")]
                out.append(scr(r, script.plain(ops + events(ev), []), atm, src))
    judge(rep, out, "special texts")
    judge(rep, list(long_names(r)), "long names")
    # expressions without steps are accepted (what they select is not specified)
    judge(rep, [scr(r, script.plain([("add", b(e, t), typ(1))], []), e, e) for e in ALL for t in ("", "/", "//")], "empty expressions")


def p05(rep):
    r = rng("p05")
    out = []
    rgs = [[("x", k)] for k in range(5)] + [[("f", k)] for k in range(5)] + [[("u", k)] for k in range(-1, 5)] + [[("r", k, l)] for k in range(5) for l in range(-1, 5)]
    rgs += [p + q for p in r.sample(rgs, 12) for q in r.sample(rgs, 8)]
    shapes = [([("t", False, ["a"])], "content", False), ([("t", True, ["a"])], "content", False), ([("t", True, ["a"])], "content", True),
              ([("t", False, ["a"]), ("t", True, None)], "content", False), ([("t", True, ["a"]), ("i", False, ("x", "1"))], "content", True),
              ([("t", False, ["a"]), ("a", False, None)], "value", False), ([("t", True, None), ("a", False, ["x"])], "value", False), ([], "content", True)]
    for rg in rgs:
        for st, o, f in shapes if not quick() else r.sample(shapes, 4):
            x = X(st, o, f, rg)
            ops = x.calls("UTF8", 1)
            if r.random() < .4:
                ops += X(st, o, f, r.choice(rgs)).calls("UTF8", 2)
            if r.random() < .3:
                ops += expr(r).calls("UTF8", 3)
            k = r.choice([0, 3, 6, 9])
            ev = [(OPEN, b"a"), (AN, b"x"), (AV, b"1")]
            for j in range(k):
                ev.append((CONT, b"t"))
                if r.random() < .4:
                    ev += [(OPEN, r.choice([b"a", b"b"])), (AN, b"x"), (AV, r.choice([b"1", b"2"]))] + [(CONT, b"u")] * r.randint(0, 5) + [(CLOSE, b"a")]
            ev += [(CLOSE, b"a"), (OPEN, b"a"), (AN, b"x"), (AV, b"1"), (AN, b"y"), (AV, b"2")] + [(CONT, b"v")] * 5
            out.append(scr(r, script.plain(ops + events(ev), [])))
    for x in rgs:
        if x[0][0] != "u" and len(x) == 1 and min(x[0][1:]) >= 0:
            for pre in ("/a", "//a", "/a//*", "//a[@x=1]"):
                t = pre + {"x": "[%d]", "f": "[%d,]", "r": "[%d,%d]"}[x[0][0]] % x[0][1:] + r.choice(["()", "@x", "//()" if not pre.endswith("]") else "()"])
                ev = [(OPEN, b"a"), (AN, b"x"), (AV, b"1")] + [(CONT, b"t")] * r.randint(0, 6) + [(OPEN, b"a"), (AN, b"x"), (AV, b"1")] + [(CONT, b"u")] * 4 + [(CLOSE, b"a")] + [(CONT, b"t")] * 3
                out.append(scr(r, script.plain([("add", t.encode(), typ(1))] + events(ev), []), "UTF8", "UTF8"))
    for _ in range(scale(1500, 20000)):
        ops = []
        for k in range(r.choice([1, 2, 3])):
            if r.random() < .3:
                ops.append(("add", expr(r, text=True, ranged=.9).text(r, .1).encode(), typ(k + 1)))
            else:
                ops += expr(r, ranged=.9).calls("UTF8", k + 1)
        out.append(scr(r, script.plain(ops + events(doc(r, size=r.choice([20, 40]))), []), "UTF8", "UTF8"))
    # many matches, large bounds
    for q in ([("x", 199)], [("f", 198)], [("r", 197, 199)], [("r", 5, 2147483646)], [("u", 2147483646)], [("r", 5, -1)]):
        out.append(scr(r, script.plain(X([("t", False, ["a"])], "content", False, q).calls("UTF8", 1) + events([(OPEN, b"a")] + [(CONT, b"t")] * 203), [])))
    # numbers of every length, with leading zeros
    for l in range(1, 9):
        for z in range(0, 9 - l):
            v = r.randint(10 ** (l - 1) if l > 1 else 0, 10 ** l - 1)
            for q in ("[%s]", "[%s,]", "[0,%s]", "[1,%s]", "[%s,99999999]"):
                out.append(scr(r, script.plain([("add", ("/a" + q % ("0" * z + str(v)) + "()").encode(), typ(1))] + events([(OPEN, b"a")] + [(CONT, b"t")] * min(v + 3, 130)), []), "UTF8", "UTF8"))
    judge(rep, out + counted(r), "index ranges")
    probe_tagrange(rep)


def probe_tagrange(rep):
    kf = known_findings()
    h = script.harness()
    ev = [(OPEN, b"r"), (OPEN, b"b"), (CLOSEIM, b""), (OPEN, b"b"), (CLOSEIM, b""), (OPEN, b"b"), (CLOSEIM, b"")]
    s = scr(rng("x"), script.plain([("add", b"/r/b[1]", typ(1))] + events(ev), []), "UTF8", "UTF8", hp={"it": 0})
    rep.execs += 1
    got = [k for k, o in enumerate(s.record(h.run([s.line()])[0])["ops"]) if o[0] == "ev" and o[3][1]]
    if got != [5]:
        if ("P05", "tagrange") in kf and got == [3, 5, 7]:
            rep.finding(kf[("P05", "tagrange")])
        else:
            rep.violation("'/r/b[1]' selects the events %s, expected is the second b (or the known finding: all)" % got, {"request": s.line(), "got": got})


def copies(rep, r):
    out = []
    for _ in range(scale(900, 12000)):
        xs = [expr(r) for _ in range(r.choice([1, 2, 4]))]
        ops = [c for k, x in enumerate(xs) for c in x.calls("UTF8", k + 1)] + events(doc(r, size=r.choice([12, 24])))
        per = [("ev", OPEN, b"a"), ("ev", OPEN, b"b"), ("ev", CLOSE, b"a"), ("ev", CONT, b"t"), ("ev", CLOSEIM), ("ev", AN, b"x"), ("ev", AV, b"1"),
               ("def", b"d", b"t", b"a", b"o", b"=", typ(50)), ("def", b"t", b"a", b"=", typ(51))]
        out.append(scr(r, script.weave(r, ops, per, [], p=.25)))
    judge(rep, out, "copies of automatons and selections")


LOOKS = [OPEN, HS, CLOSE, CLOSEIM, HE, AN, HN, AV, HV, CONT]


def p06(rep):
    """looking ahead from every state of a selection, the description of an automaton"""
    r = rng("p06")
    design(rep, ["PathModelAhead.cfg"])
    out = []
    for _ in range(scale(2500, 25000)):
        xs = [expr(r, text=r.random() < .3) for _ in range(r.choice([1, 2, 4, 8]))]
        ops = []
        for k, x in enumerate(xs):
            ops += x.calls("UTF8", k + 1)
        ev = events(doc(r, size=r.choice([8, 20])))
        looks = lambda: [("look", r.choice([OPEN, OPEN, OPEN, AN, AV, CLOSE, r.choice(LOOKS)]), r.randint(0, 1), r.choice([CONT, CONT, AV, AV, r.choice(LOOKS)])) for _ in range(r.randint(1, 3))]
        if r.random() < .5:
            ops += looks()
        for o in ev:
            ops.append(o)
            if r.random() < .6:
                ops += looks()
        if r.random() < .3:
            ops.append(("str",))
        out.append(scr(r, script.weave(r, ops, [("ev", OPEN, b"a"), ("ev", CLOSE, b"a"), ("def", b"d", b"t", b"a", b"o", b"=", typ(50))], [], p=.05) if r.random() < .2 else script.plain(ops, [])))
    for _ in range(scale(300, 3000)):
        ops = []
        for k in range(r.choice([1, 2, 5])):
            if r.random() < .4:
                ops.append(("add", expr(r, text=True, ranged=.6).text(r, .1).encode(), typ(k + 1)))
            else:
                ops += expr(r, ranged=.6).calls("UTF8", r.choice([1, 2, 9, 99, 1000000]))
            if r.random() < .4:
                ops.append(("str",))
        out.append(scr(r, script.plain(ops + [("str",), ("str",)], []), "UTF8", "UTF8"))
    judge(rep, out, "looking ahead")
