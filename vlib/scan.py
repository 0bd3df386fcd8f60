"""Checks of the XML scanner (S01..S10, parts of M01, M02, M03)."""
import json, os, re, subprocess
from .core import *
from . import enc, gen

TUS = [("scan_main.cpp", [])]
for _e in ["IsoLatin", "UTF8", "UTF16BE", "UTF16LE", "UCS2BE", "UCS2LE", "UCS4BE", "UCS4LE"]:
    TUS += [("scan_enc.cpp", ["VIN=" + _e, "HALF1"]), ("scan_enc.cpp", ["VIN=" + _e])]
ITS = [("UTF8", "UTF8"), ("UTF16LE", "UTF8"), ("UTF16BE", "UTF16BE"), ("IsoLatin", "IsoLatin"), ("IsoLatin", "UTF8"), ("UTF8", "UCS2LE"), ("UCS2BE", "UTF8"), ("UCS4LE", "UTF8")]
for _a, _b in ITS:
    TUS += [("scan_it.cpp", ["VIN=" + _a, "VOUT=" + _b] + (["CUT"] if (_a, _b) == ("UTF8", "UTF8") else []))]
TYPES = ["None", "ErrorOccurred", "HeaderStart", "HeaderAttribName", "HeaderAttribValue", "HeaderEnd", "DocAttribValue", "DocAttribEnd",
         "TagAttribName", "TagAttribValue", "OpenTag", "CloseTag", "CloseTagIm", "Content", "Exit"]
TEXTTYPES = ["HeaderStart", "HeaderAttribName", "HeaderAttribValue", "DocAttribValue", "TagAttribName", "TagAttribValue", "OpenTag", "CloseTag", "Content"]
OUTS = ["ISO1"] + enc.ENCS


def tour():
    """documents of the transition tour of the machine, from TLC"""
    r = tlc("ScannerTour", workers=1)
    docs = [json.loads(l[4:-1]) for l in r.out.split("\n") if l.startswith('"DOC[')]
    return r, docs


def failstart(f, bufsize, cuts):
    """offset where the read call reaching the byte f starts"""
    pos = k = 0
    while True:
        n = bufsize
        if cuts:
            g = cuts[k % len(cuts)]
            k += 1
            if g and g < n:
                n = g
        if pos + n > f:
            return pos
        pos += n


class Case:
    """one execution of the scanner"""
    __slots__ = ("doc", "inp", "out", "it", "mode", "masks", "ents", "cuts", "bufsize", "failat", "failmode", "cap", "line", "offs", "nopos", "wf")

    def __init__(self, doc, inp="UTF8", out="UTF8", it="S", mode="n", masks=None, ents=False, cuts=None, bufsize=8192, failat=-1, failmode=0, cap=0, nopos=False, wf=False):
        if "d" in mode:
            ents = False      # default construction: no user defined entities
        self.doc, self.inp, self.out, self.it, self.mode = doc, inp, out, it, mode
        self.masks, self.ents, self.cuts, self.bufsize, self.failat, self.cap = masks, ents, cuts, bufsize, failat, cap
        self.failmode = failmode
        self.nopos = nopos
        self.wf = wf
        e = enc.encode(inp, doc)
        if e is None:
            raise ValueError("not representable")
        b, self.offs = e
        n = lambda x: "IsoLatin" if x.startswith("ISO") else x
        page = enc.iso_page(inp)
        ml = ",".join(str(m) for m in masks) if masks else "-"
        self.line = "scan %s/%s/%s%s %d %s %s %d %s %s %d %d %d" % (n(inp), n(out), it, cap or "", page, mode, ml, 1 if ents else 0,
                                                              b.hex() or "-", ",".join(map(str, cuts)) if cuts else "-", bufsize, failat, failmode)

    def record(self, answer):
        """normalised behaviour for the specification (an answer that cannot be read is no behaviour of it)"""
        try:
            return self.record_of(answer)
        except (ValueError, IndexError, KeyError):
            return self.record_of("UNREADABLE " + answer[:180])

    def record_of(self, answer):
        doc = self.doc
        idx = {o: k for k, o in enumerate(self.offs)}
        total = self.offs[-1]
        items, tail = [], []
        toks = answer.split(" ")
        if toks[0] != "":
            return {"doc": doc, "ents": bool(self.ents), "masks": [[]], "view": "full", "cap": 0, "items": [[answer[:200], [-1], -1, -1, "", "*"]], "tail": [],
                    "wf": self.wf, "k1": -1, "k2": -1}
        outenc = self.out

        def pos(p):
            p = int(p) if p else -1
            if p < 0 or self.nopos:
                return -1
            if p >= total:
                return len(doc)
            return idx.get(p, 900000 + p)
        done = False
        for t in toks[1:]:
            ty, c, p, tp, e, msg = t.split(",")
            if done:
                tail.append(ty)
                continue
            b = bytes.fromhex(c)
            if self.cap:
                cont = list(b)
            else:
                cont = enc.decode(outenc, b)
            if ty in ("Exit", "HeaderStart", "EXC") or ty == "ErrorOccurred":
                p, tp = -1, -1
            else:
                p = pos(p)
                tp = pos(tp) if ty in TEXTTYPES else -1
            if ty == "ErrorOccurred":
                cont = [-1]
            items.append([ty, cont, p, tp, e, msg])
            if ty == "Exit":
                done = True
        view = "full"
        if self.cap:
            view = "cut"
        elif outenc != "UTF8":
            # characters not representable in the output?
            cs = set(doc)
            lim = {"ISO1": 255, "UCS2BE": 0xFFFF, "UCS2LE": 0xFFFF, "UTF16BE": 0x10FFFF, "UTF16LE": 0x10FFFF}.get(outenc)
            if lim is not None and (max(cs or {0}) > lim or 38 in cs):
                view = {"UCS2LE": "UCS2BE", "UTF16LE": "UTF16BE"}.get(outenc, outenc)
        masks = [[]]
        if self.masks:
            masks = [[t for k, t in enumerate(TYPES) if not (m >> k) & 1] for m in self.masks]
        k1 = k2 = -1
        if self.failat >= 0:
            at = lambda b: max(k for k, o in enumerate(self.offs) if o <= max(0, b))
            lo = self.failat
            if "s" in self.mode:      # the bytes of the read call that fails are lost
                lo = lo // self.bufsize * self.bufsize
            elif self.failmode:
                lo = failstart(self.failat, self.bufsize, self.cuts)
            k1, k2 = at(lo - 1), at(self.failat)
        return {"doc": doc, "ents": bool(self.ents), "masks": masks, "view": view, "cap": self.cap, "items": items, "tail": tail,
                "wf": self.wf, "k1": k1, "k2": k2}


def nolim(rec):
    """docs with numeric references to characters that are outside of what the properties speak about"""
    return rec


_exe = None


def harness():
    global _exe
    if _exe is None:
        _exe = Harness(build("scan", TUS))
    return _exe


ENTLINE = "ents " + " ".join("%s=%d" % (n.encode().hex(), v) for n, v in gen.ENTNAMES)


def runcases(cases):
    h = harness()
    return h.run_pre([c.line for c in cases], ENTLINE)


def judge(rep, cases, label):
    """execute the cases, normalise, dedupe, have TLC decide"""
    ans = runcases(cases)
    rep.execs += len(cases)
    runs, first = [], []
    seen = {}
    for c, a in zip(cases, ans):
        if a == "NOCFG":
            raise CheckError("harness has no configuration for " + c.line)
        rec = c.record(a)
        k = json.dumps(rec, sort_keys=True)
        if k in seen:
            continue
        seen[k] = len(runs)
        runs.append(rec)
        first.append(c)
    rep.info["distinct_behaviours"] = rep.info.get("distinct_behaviours", 0) + len(runs)

    def confirm(i):
        a = runcases([first[i]])[0]
        return first[i].record(a)
    if runs:
        rep.sample({"case": first[0].line[:300], "items": runs[0]["items"][:8]})
        rep.sample({"case": first[-1].line[:300], "items": runs[-1]["items"][:8]})
    lines = {id(r): c.line for r, c in zip(runs, first)}
    for r, c in zip(runs, first):
        r["req"] = c.line
    validate(rep, "ScannerTrace", runs, label, {"ents": [[gen.O(n), v] for n, v in gen.ENTNAMES]},
             confirm=lambda i: (lambda x: (x.update(req=first[i].line), x)[1])(confirm(i)))


# ------------------------------------------------------------------ inputs
def okrefs(d):
    """no numeric reference to a surrogate or a value in [2^31,2^32) (outside of the properties)"""
    s = "".join(chr(c) if c < 0x110000 and not 0xD800 <= c < 0xE000 else "?" for c in d)
    for m in re.finditer(r"&#(x[0-9a-fA-F]+|[0-9]+);", s):
        t = m.group(1)
        v = int(t[1:], 16) if t[0] == "x" else int(t)
        if 0xD800 <= v < 0xE000 or 0x80000000 <= v <= 0xFFFFFFFF:
            return False
    return True


def docs(name, n, **kw):
    """some of them have null characters: these end the document"""
    r = rng("nulls/" + name)
    out = []
    for d in gen.pool(name, n, **kw):
        if r.random() < .06:
            k = r.randrange(len(d) + 1)
            d = d[:k] + [0] * r.choice([1, 1, 2]) + d[k:]
        if okrefs(d):
            out.append(d)
    return out


def grammar_docs(rep, num):
    """well formed documents written by the specification XmlDoc (TLC simulation), its invariants checked on the way"""
    r = tlc("XmlDoc", cfg="XmlDocSim.cfg", workers=1, extra=["-simulate", "num=%d" % num, "-depth", "60", "-seed", str(SEED)], timeout=300)
    if not r.ok:
        raise CheckError("specification XmlDoc inconsistent: %s\n%s" % (r.violated, r.state[:2000]))
    m = re.search(r"Progress: (\d+) states checked", r.out)
    n = int(m.group(1)) if m else 0
    rep.states += n
    rep.transitions += n
    seen, out = set(), []
    for l in r.out.split("\n"):
        if l.startswith('"DOC[') and l not in seen:
            seen.add(l)
            d = json.loads(l[4:-1])
            if len(d) <= 200:
                out.append(d)
    return out


def design(rep, module, cfg=None, **kw):
    r = tlc(module, cfg=cfg, **kw)
    if not r.ok:
        raise CheckError("specification %s inconsistent: %s\n%s" % (module, r.violated, r.state[:3000]))
    rep.add_tlc(r)
    rep.info.setdefault("design_models", {})[cfg or module] = {"states": r.distinct, "generated": r.generated}
    return r


def tour_docs(rep):
    r, ds = tour()
    if not r.ok:
        raise CheckError("specification Scanner inconsistent: %s\n%s" % (r.violated, r.state[:2000]))
    rep.add_tlc(r)
    rep.info["transition_tour_documents"] = len(ds)
    return ds


TAILS = [[], [62], [62, 120, 60, 47, 97, 62], [34, 62], [45, 45, 62, 60, 97, 62], [93, 93, 62, 121], [63, 62, 60, 98, 47, 62], [61, 39, 122, 39, 47, 62], [59, 120, 62]]
ALLIN = ["UTF8", "UTF16BE", "UTF16LE", "UCS2BE", "UCS2LE", "UCS4BE", "UCS4LE"] + ["ISO%d" % k for k in range(1, 10)]
MAXCP = {"UTF8": 0x7FFFFFFE, "UTF16BE": 0x10FFFF, "UTF16LE": 0x10FFFF, "UCS2BE": 0xD7FF, "UCS2LE": 0xD7FF, "UCS4BE": 0x7FFFFFFE, "UCS4LE": 0x7FFFFFFE}


def fits(d, e):
    return enc.encode(e, d) is not None


def trycase(d, **kw):
    try:
        return Case(d, **kw)
    except ValueError:
        return None


def add(cases, d, **kw):
    c = trycase(d, **kw)
    if c:
        cases.append(c)


def splits(r, total, how):
    """sizes of chunks"""
    if how == "ones":
        return [1] * max(1, total)
    if how == "empties":
        out = [0]
        for _ in range(total):
            out += [1, 0]
        return out
    if how == "twos":
        return [2] * ((total + 1) // 2 or 1)
    if how == "threes":
        return [3] * ((total + 2) // 3 or 1)
    out, left = [], total
    while left > 0:
        n = min(left, r.choice([0, 1, 1, 2, 3, 5, 8, 13, 40]))
        out.append(n)
        left -= n
    return out or [0]


# ------------------------------------------------------------------ checks
def s01(rep):
    design(rep, "XmlDoc")
    td = tour_docs(rep)
    r = rng("s01")
    judge(rep, [Case(d) for d in td], "transition tour")
    judge(rep, [Case(d + t) for d in (td if not quick() else r.sample(td, 1200)) for t in ([r.choice(TAILS)] if quick() else TAILS)], "transition tour with endings")
    judge(rep, [Case(d, wf=True) for d in grammar_docs(rep, scale(300, 4000))], "documents of the grammar")
    ds = docs("s01", scale(1500, 20000), ents=True, maxcp=0x7FFFFFFE)
    judge(rep, [Case(d, ents=True, mode=r.choice("nij")) for d in ds], "generated documents")
    big(rep)


def big(rep):
    """long documents: long names, texts, many siblings, deep nesting"""
    r = rng("big")
    out = []
    for n in ([300, 1500] if quick() else [300, 1000, 3000, 9000]):
        nm = [r.choice(gen.NAMECH[:12]) for _ in range(n)]
        out.append([60] + nm + [62] + nm + [60, 47] + nm + [62])
        out.append(gen.O("<a b='") + [r.choice([97, 13, 10, 233, 0x20AC]) for _ in range(n)] + gen.O("'/>"))
        out.append(gen.O("<a>") + gen.O("<b/>&lt;") * (n // 8) + gen.O("</a>"))
        out.append(gen.O("<a>") * (n // 7) + gen.O("</a>") * (n // 7))
        out.append(gen.O("<a><!--") + [r.choice([45, 97, 62, 60]) for _ in range(n)] + gen.O("a--></a>"))
        out.append(gen.O("<a>&") + [97] * n + gen.O(";</a>"))
        out.append(gen.O("<a>&#") + [49] * n + gen.O(";</a>"))
    # lengths where counters of few bits end
    for n in [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257] + scale([512], [511, 512, 513, 1023, 1024, 1025, 2048]):
        nm = [r.choice(gen.NAMECH[:12]) for _ in range(n)]
        q = nm[:-1] + [r.choice([c for c in gen.NAMECH[:12] if c != nm[-1]])]
        for d in r.sample([gen.O("<?xml ") + nm + gen.O("='") + nm + gen.O("'?><a/>"), gen.O("<!DOCTYPE ") + nm + gen.O(" \"") + nm + gen.O("\"><a/>"), [60] + nm + gen.O(" ") + nm + gen.O("=") + nm + gen.O("/>"),
                  [60] + nm + gen.O(" ") + nm + gen.O("=\"") + nm + gen.O("\" ") + q + gen.O("=''>") + q + gen.O("</") + q + gen.O(">"), gen.O("<a>&") + nm + gen.O(";x</a>"), gen.O("<a b='") + [32] * n + gen.O("'> ") + [32, 10] * (n // 2) + gen.O("</a>"),
                  gen.O("<a>") + [13] * n + gen.O("</a>"), gen.O("<a><![CDATA[") + nm + [93] * n + gen.O("]]></a>"), gen.O("<a>&#") + [48] * n + gen.O("65;&#x") + [48] * n + gen.O("41;</a>"),
                  gen.O("<a>") + gen.O("&lt;") * n + gen.O("</a>"), gen.O("<a><!-- ") + nm + [45] * (n % 2) + gen.O(" --></a>"), gen.O("<!ENTITY ") + nm + gen.O(" '") + nm + gen.O("'><a>b</a>")], scale(5, 12)):
            out.append(d)
    judge(rep, [Case(d, mode="n") for d in out], "long documents")
    if rep.prop == "S01":
        large(rep, "large texts", "texts")
    return out


def large(rep, label, what):
    """documents and texts that are longer than 2^12, 2^13, 2^16 bytes"""
    r = rng("large" + label)
    cases = []
    for n, i, o in [] if what != "texts" else [(4090, "UTF8", "UTF8"), (4200, "UTF16LE", "UTF16BE")] + ([] if quick() else [(16600, "UCS4BE", "UCS4LE"), (66000, "UTF8", "UTF8")]):
        t = [r.choice([97, 98, 99, 32, 10, 233]) for _ in range(n)]
        add(cases, gen.O("<a>x") + t + gen.O("</a>"), inp=i, out=o)
        if n < 10000:
            add(cases, gen.O("<a b='x") + t + gen.O("'>y</a>"), inp=i, out=o)
    nm = [[r.choice([97, 98, 90, 95, 49]) for _ in range(r.randint(1, 9))] for _ in range(40)]
    for n, i, o in {"texts": [], "positions": [(70000, "UTF8", "UTF8"), (18000, "UCS4LE", "UTF8")], "sources": [(17000, "UTF8", "UTF8")],
                    "chunks": [(33000, "UTF16BE", "UTF8")]}[what]:
        d = gen.O("<a>")
        while len(d) < n:
            x = [120] + r.choice(nm)
            k = r.randint(0, 4)
            d += [[60] + x + [62] + x + gen.O("&lt;</") + x + [62], [60] + x + gen.O(" b='1&#50;' c=\"\">") + gen.O("</") + x + gen.O(">\r\n"),
                  gen.O("text \u00e9\u00e9 "), [60] + x + gen.O("/>"), gen.O("<!-- ") + x + gen.O(" -->y")][k]
        d += gen.O("</a>")
        add(cases, d, inp=i, out=o)
        if what in ("chunks", "positions"):
            add(cases, d, inp=i, out=o, mode="nk", cuts=splits(r, 300, "rnd") + [300, 5000, 66000, 3, 66000, 66000, 66000])
        if what == "sources":
            add(cases, d, it="I", bufsize=8192)
            add(cases, d, it="I", mode="ns", bufsize=8192)
            add(cases, d, it="I", bufsize=8192, cuts=[5000, 1, 3000])
            add(cases, d, it="C")
            add(cases, d, it="P")
    judge(rep, cases, label)


def s02(rep):
    r = rng("s02")
    td = tour_docs(rep)
    cases = []
    for d in (r.sample(td, 1200) if quick() else td):
        d = d + r.choice(TAILS)
        for how in (["ones", "empties"] if quick() else ["ones", "empties", "twos", "rnd"]):
            c0 = Case(d)
            add(cases, d, mode=r.choice(["nk", "nk", "ik", "nkd", "nkc"]), cuts=splits(r, c0.offs[-1], how))
    judge(rep, cases, "transition tour, chunks")
    cases = []
    for d in docs("s02", scale(700, 8000), ents=True, maxcp=0x7FFFFFFE, maxlen=90):
        for e in (["UTF8"] + [r.choice(ALLIN)]):
            if not fits(d, e):
                continue
            total = enc.encode(e, d)[1][-1]
            o = r.choice(["UTF8", e if not e.startswith("ISO") else "ISO1"])
            for how in ["ones", "empties", "twos", "threes", "rnd", "rnd"]:
                m = r.choice(["nk", "nk", "nk", "ik", "jk", "nK", "nkr", "nkc"])
                add(cases, d, inp=e, out=o, mode=m, ents=True, cuts=splits(r, total, how), nopos="K" in m)
    judge(rep, cases, "generated documents, chunks")
    cases = []
    for d in docs("s02b", scale(60, 600), ents=True, maxlen=45, eolheavy=True) + grammar_docs(rep, scale(40, 400)):
        for e in ["UTF8", "UTF16LE"]:
            if not fits(d, e):
                continue
            total = enc.encode(e, d)[1][-1]
            for k in range(total + 1):
                add(cases, d, inp=e, mode="nk", ents=True, cuts=[k, total - k])
    judge(rep, cases, "every single cut")
    large(rep, "large documents in chunks", "chunks")


def s03(rep):
    from . import misc
    misc.iterators(rep)
    r = rng("s03")
    td = tour_docs(rep)
    pool = [d + r.choice(TAILS) for d in r.sample(td, scale(500, 4000))] + docs("s03", scale(600, 6000), ents=True, maxcp=0x7FFFFFFE)
    cases = []
    for d in pool:
        for (a, b) in [ITS[0], r.choice(ITS)]:
            e = a if a != "IsoLatin" else "ISO%d" % r.randint(1, 9)
            o = b if b != "IsoLatin" else "ISO1"
            if not fits(d, e):
                continue
            kw = dict(inp=e, out=o, ents=True)
            add(cases, d, it="S", **kw)
            add(cases, d, it="P", mode=r.choice(["n", "i", "j", "nd", "b"]), **kw)
            add(cases, d, it="C", mode=r.choice(["n", "i", "j", "nd", "b"]), **kw)
            for _ in range(2):
                add(cases, d, it="I", mode=r.choice(["n", "i", "ns", "nd", "nsd"]), bufsize=r.choice([1, 2, 3, 4, 7, 16, 100, 8192]),
                    cuts=r.choice([None, [1], [2], [3, 1], [1, 2, 5], [7]]), **kw)
    judge(rep, cases, "source iterators")
    large(rep, "large documents", "sources")


def s04(rep):
    r = rng("s04")
    cases = []
    pool = docs("s04", scale(330, 3000), ents=True, maxcp=0x7FFFFFFE, maxlen=100) + \
        docs("s04u", scale(250, 1500), ents=True, maxcp=0x10FFFF, maxlen=100) + docs("s04b", scale(250, 1500), ents=True, maxcp=0xD7FF, maxlen=100) + docs("s04c", scale(250, 1500), ents=True, maxcp=0xFF, maxlen=100)
    cpool = []
    for p in range(1, 10):
        cs = [c for c in enc.isomap(p)[1] if c > 160]
        for _ in range(scale(12, 60)):
            t = [r.choice(cs) for _ in range(6)]
            cpool.append(([60] + t[:2] + [62] + t[2:] + [60, 47] + t[:2] + [62], p))
    for d, p in cpool:
        for o in OUTS:
            add(cases, d, inp="ISO%d" % p, out=o)
        for e in ALLIN:
            add(cases, d, inp=e, out="ISO1")
    for d in pool:
        for e in ALLIN:
            if e.startswith("ISO") and r.random() < .7:
                continue
            if max(d or [0]) > MAXCP.get(e, 0xFFFF):
                continue
            for o in OUTS:
                if quick() and r.random() < .5:
                    continue
                add(cases, d, inp=e, out=o, ents=True, nopos=False)
    judge(rep, cases, "encodings")


def entity_docs():
    A = gen.O("#xX;&1aAg <")
    out = []
    L = [[]]
    for _ in range(scale(3, 4)):
        L = [w + [c] for w in L for c in A]
        out += L
    return out


def s05(rep):
    r = rng("s05")
    design(rep, "XmlDoc")
    cases = []
    short = entity_docs()
    for w in (short if not quick() else [w for w in short if len(w) < 3] + r.sample([w for w in short if len(w) == 3], 700)):
        d = gen.O("<a>x&") + w + gen.O("y</a>")
        add(cases, d, ents=True)
        add(cases, d, ents=True, mode="nk", cuts=[1] * len(d))
        add(cases, gen.O("<a b='&") + w + gen.O("'/>"), ents=True)
    names = [n for n, _ in gen.ENTNAMES] + gen.PRE
    var = set()
    for n in names:
        for v in [n, n[:-1], n + "x", n.upper(), n.capitalize(), " " + n, n + " ", n[1:], "x" + n]:
            var.add(v)
    for v in sorted(var):
        for p, q in [("<a>&", ";</a>"), ("<a b=\"&", ";\">"), ("<a c='&", ";'>"), ("<a c=&", ";>"), ("<?xml v='&", ";'?><a/>"), ("<&", ";/>"), ("<!D '&", ";'><a/>"), ("<a>\u20ac&", "&lt;")]:
            d = gen.O(p + v + q)
            for e in [True, False]:
                add(cases, d, ents=e)
            add(cases, d, ents=True, mode="nk", cuts=[1] * 200)
            add(cases, d, inp="UTF16BE", out="UCS2LE", ents=True, mode="nk", cuts=[1] * 400)
    for v in [0, 1, 9, 10, 13, 31, 32, 38, 60, 127, 128, 255, 256, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000,
              0x7FFFFFFE, 0x100000000, 0x100000041, 0xFFFFFFFFFF, 10**15, 10**16] + [r.randint(1, 0x10FFFF) for _ in range(60)]:
        if 0xD800 <= v < 0xE000:
            continue
        for f in ["&#%d;", "&#x%x;", "&#x%X;", "&#0%d;", "&#x00%x;", "&#%d", "&#x%x"]:
            d = gen.O("<a>") + gen.O(f % v) + gen.O("</a>")
            for o in OUTS:
                add(cases, d, out=o)
            add(cases, d, mode="nk", cuts=[1] * 100)
    judge(rep, cases, "entities")
    judge(rep, [Case(d, ents=e, mode="n") for d in docs("s05", scale(800, 9000), ents=True, maxcp=0x7FFFFFFE) for e in (True, False)], "generated documents")


def s06(rep):
    r = rng("s06")
    design(rep, "XmlDoc")
    A = [[13], [10], [9], [97], gen.O("&#13;"), gen.O("&#10;"), [32], [233]]
    L, words = [[]], []
    for _ in range(scale(4, 5)):
        L = [w + c for w in L for c in A]
        words += L
    if quick():
        words = [w for w in words if len([x for x in w]) < 4] + r.sample(words, 1500)
    cases = []
    for w in words:
        k = r.randint(0, 4)
        p, q = [("<a>", "</a>"), ("<a b='", "'/>"), ("<a b=\"", "\"/>"), ("<?xml b='", "'?><a/>"), ("<!D '", "'><a/>")][k]
        d = gen.O(p) + w + gen.O(q)
        add(cases, d)
        add(cases, d, mode="nk", cuts=[1] * (len(d) + 20))
        e = r.choice(ALLIN)
        add(cases, d, inp=e, out=r.choice(["UTF8", "ISO1", "UTF16LE"]), mode="nk", cuts=splits(r, 8 * len(d), "rnd"))
        add(cases, d, it="I", bufsize=r.choice([1, 2, 3, 8192]), cuts=[1, 2])
    judge(rep, cases, "line ends")
    cases = []
    for d in docs("s06", scale(700, 8000), eolheavy=True, ents=True):
        add(cases, d, ents=True)
        add(cases, d, ents=True, mode="nk", cuts=splits(r, 6 * len(d), "rnd"))
        add(cases, d, ents=True, mode="nk", cuts=[1] * 6 * len(d))
    judge(rep, cases, "generated documents")


def s07(rep):
    r = rng("s07")
    cases = []
    td = tour_docs(rep)
    pool = [d + r.choice(TAILS) for d in r.sample(td, scale(500, 4400))] + docs("s07", scale(500, 5000), ents=True)
    for d in pool:
        masks = [[0], [0xFFFF & ~(1 << r.randint(0, 14))], [1 << r.randint(0, 14)], [r.randint(0, 0xFFFF) for _ in range(r.randint(2, 6))], [0, 0xFFFF], [0xFFFF, 0]]
        for m in (r.sample(masks, 3) if quick() else masks):
            add(cases, d, masks=m, ents=True)
            add(cases, d, masks=m, ents=True, mode="nk", cuts=splits(r, 6 * len(d), r.choice(["ones", "rnd", "empties"])))
        if r.random() < .3:
            e = r.choice(ALLIN)
            add(cases, d, inp=e, masks=masks[3], ents=True)
            add(cases, d, it=r.choice("PCI"), masks=masks[3], ents=True, bufsize=3)
    judge(rep, cases, "masks")


def s08(rep):
    r = rng("s08")
    design(rep, "XmlDoc")
    cases = []
    td = tour_docs(rep)
    pool = [d + r.choice(TAILS) for d in r.sample(td, scale(400, 4400))] + docs("s08", scale(500, 5000), ents=True, maxcp=0x10FFFF) + docs("s08b", scale(200, 2000), ents=True, maxcp=0xFF)
    for d in pool:
        for e in r.sample(ALLIN, 3) + ["UTF8"]:
            if not fits(d, e):
                continue
            add(cases, d, inp=e, ents=True, mode=r.choice(["n", "i", "j"]))
            add(cases, d, inp=e, ents=True, mode="nk", cuts=splits(r, 8 * len(d), r.choice(["ones", "rnd", "empties", "twos"])))
        for (a, b) in [ITS[0], r.choice(ITS)]:
            e = a if a != "IsoLatin" else "ISO%d" % r.randint(1, 9)
            o = b if b != "IsoLatin" else "ISO1"
            for it in "PCI":
                add(cases, d, inp=e, out=o, it=it, ents=True, bufsize=r.choice([1, 2, 3, 5, 8192]), cuts=r.choice([None, [1], [3, 1]]))
    judge(rep, cases, "positions")
    large(rep, "large documents", "positions")


def s09(rep):
    r = rng("s09")
    td = tour_docs(rep)
    cases = []
    for d in td:
        add(cases, d, mode=r.choice(["n", "i", "j"]), it=r.choice("SSCPI"))
    judge(rep, cases, "transition tour")
    cases = []
    for d in docs("s09", scale(60, 600), wellformed=1, ents=True, maxlen=100) + grammar_docs(rep, scale(40, 300)):
        e = r.choice(["UTF8", "UTF8", "UTF16LE", "UCS4BE"])
        for k in range(len(d)):
            add(cases, d[:k], inp=e if fits(d, e) else "UTF8", ents=True, mode=r.choice(["n", "i", "j", "nk"]), cuts=[r.randint(0, 2 * k + 1), 1, 2, 3])
    judge(rep, cases, "every truncation")
    cases = []
    for d in docs("s09b", scale(1500, 20000), wellformed=0.05, ents=True, maxcp=0x7FFFFFFE):
        add(cases, d, mode=r.choice(["n", "i", "j"]), ents=True, it=r.choice("SSCPI"), bufsize=r.choice([1, 2, 8192]))
    judge(rep, cases, "damaged documents")


def s10(rep):
    r = rng("s10")
    design(rep, "XmlDoc")
    td = tour_docs(rep)
    judge(rep, [Case(d + r.choice(TAILS), mode=r.choice(["n", "i", "j", "b"])) for d in td], "transition tour")
    cases = []
    for d in grammar_docs(rep, scale(400, 4000)):
        add(cases, d, wf=True)
        add(cases, d, wf=True, it=r.choice("PCI"), mode=r.choice(["n", "i", "j"]))
        add(cases, d, wf=True, mode="nk", cuts=splits(r, 8 * len(d), "rnd"))
    judge(rep, cases, "documents of the grammar")
    cases = []
    for d in docs("s10", scale(1000, 10000), wellformed=.4, ents=True, maxcp=0x7FFFFFFE):
        add(cases, d, ents=True, mode=r.choice(["n", "i", "j", "b"]))
        add(cases, d, ents=True, mode="nk", cuts=splits(r, 8 * len(d), "rnd"))
    judge(rep, cases, "generated documents")
    big(rep)
