"""The components composed: header parser, scanner, path selection, printer (E01, E02, part of M02)."""
import itertools
from .core import *
from . import script, enc, gen, scan, path, prn
from .script import Script

INS = ["UTF8", "UTF16BE", "UTF16LE", "UCS2BE", "UCS2LE", "UCS4BE", "UCS4LE"] + ["ISO%d" % k for k in range(1, 10)]
NM = path.Names(["a", "b", "c", "\u00e9a", "x-1"], ["x", "y", "\u20acz"], ["1", "2", "a b", "1<2", "\u20ac", "t\tq"])


def fit(e, s):
    return all(enc.can(e, ord(c)) for c in s)


def names(inp):
    f = lambda l: [s for s in l if fit(inp, s)]
    return path.Names(f(NM.tags), f(NM.attrs), f(NM.vals))


def esc(s, r):
    return "".join(r.choice(["&uuml;", "&eur;", "&nl;", "&quot2;"]) if r.random() < .03 else "&x;" if c == "x" and r.random() < .4 else {"<": "&lt;", "&": "&amp;", "'": "&apos;", '"': "&quot;"}.get(c, r.choice(["&#%d;", "&#x%x;"]) % ord(c) if r.random() < .1 else c) for c in s)


def doc(r, nm, size=12, decl=.4):
    """a document with the names the expressions speak about"""
    g = lambda lo=0: "".join(r.choice(" \n\t\r") for _ in range(r.choice([lo, lo, lo, 1, 2])))
    out = []
    left = [size]

    def misc():
        x = r.random()
        if x < .08:
            out.append("<!-- <%s> -->" % r.choice(nm.tags))
        elif x < .14:
            out.append("<![CDATA[%s]]>" % r.choice(["1", "<a>", "]]", "2"]))
        elif x < .2:
            out.append("<?%s x='1'?>" % r.choice(nm.tags))

    def element(d):
        left[0] -= 1
        t = r.choice(nm.tags)
        out.append("<" + t)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            q = r.choice("\"'")
            v = r.choice(nm.vals)
            a = r.choice(nm.attrs)
            out.append(g(1) + (" " if out[-1][-1:] not in " \n\t\r" else "") + a + g() + "=" + g() + (q + esc(v, r) + q if r.random() < .9 or not v.isalnum() else v))
            if out[-1][-1] not in "\"'":
                out.append(" ")
        out.append(g())
        if r.random() < .2:
            out.append("/>")
            return
        out.append(">")
        for _ in range(r.choice([0, 1, 2, 3])):
            x = r.random()
            misc()
            if x < .35:
                out.append(g() + esc(r.choice(nm.vals + ["t", "text"]), r) + g())
            elif left[0] > 0 and d < 5:
                element(d + 1)
        out.append("</" + (t if r.random() < .97 else r.choice(nm.tags)) + g() + ">")

    if r.random() < decl:
        out.append("<?xml" + "".join(" " + g() + a + g() + "=" + g() + q + v + q for a, v, q in
                                     [(a, r.choice(vs), r.choice("\"'")) for a, vs in [("version", ["1.0", "1.1"]), ("encoding", ["UTF-8", "isolatin-1", "utf-16le", "x y", ""]), ("standalone", ["yes", "no"])]
                                      if r.random() < .7]) + r.choice(["", " "]) + "?>" + g())
    else:
        out.append(g())
    if r.random() < .1:
        out.append("<!DOCTYPE %s SYSTEM \"x.dtd\">" % r.choice(nm.tags))
    element(0)
    out.append(g())
    d = [ord(c) for c in "".join(out)]
    if r.random() < .15:
        d = gen.Gen(r, 0xFFFD).mutate(d)
    return d


def has(d):
    return any("&%s;" % n in "".join(chr(c) if c < 128 else "?" for c in d) for n in ("uuml", "eur", "nl", "quot2", "x"))


def nexts(d):
    return min(120, 4 + 2 * d.count(60) + 2 * d.count(61) + d.count(62))


def pipe(r, d, inp, atm, ops, src="S", cuts=None, decl=None, head=False, weave=False, hp=None):
    e = enc.encode(inp, d)
    if e is None or not scan.okrefs(d):
        return None
    data = e[0]
    h = dict(path.kinds(r), doc=data, page=enc.iso_page(inp) if inp.startswith("ISO") else 0, ents=int(r.random() < (.7 if has(d) else .1)))
    if src == "S" and cuts:
        h.update(ctor=1, cuts=cuts)
    if src == "C":
        h["ctor"] = r.randrange(3)
    if src == "I":
        h.update(ctor=r.randrange(3), bufsize=r.choice([1, 2, 3, 7, 16, 8192]), cuts=r.choice([[], [1], [2, 3], [5, 1, 1]]))
        if not h["cuts"]:
            del h["cuts"]
    h.update(hp or {})
    seq = list(ops) + ([("head",)] if head else []) + [("next",)] * nexts(d)
    if weave:
        per = [("next",), ("next",), ("def", b"d", b"t", path.b(atm, "a"), b"o", b"=", path.typ(50)), ("def", b"d", b"t", path.b(atm, "b"), b"=", path.typ(51))]
        seq = script.weave(r, seq, per, [], p=.12)
    else:
        seq = script.plain(seq, [])
    return Script("pipe%s%s-%s" % (src, path.cls(inp), path.cls(atm)), h, {"doc": d, "enc": inp, "atm": atm, "ents": bool(h["ents"]), "decl": list(decl) if decl else [-1]}, seq)


def exprs(r, nm, atm, n):
    ops = []
    for k in range(n):
        if r.random() < .35:
            ops.append(("add", path.expr(r, nm, text=True).text(r, .1).encode(), path.typ(k + 1)))
        else:
            ops += path.expr(r, nm, alt=False).calls(atm, k + 1)
    return ops


def sources(r, inp):
    c = ["S", "S"]
    if inp == "UTF8":
        c += ["C", "I"]
    if inp == "UTF16LE":
        c += ["I"]
    return r.choice(c)


def cutting(r, n):
    how = r.choice(["ones", "rnd", "rnd", "empties", "twos", "threes"])
    return scan.splits(r, n, how) if n < 2000 else scan.splits(r, n, "rnd")


def e01(rep):
    r = rng("e01")
    out = []
    for atm in path.ALL:
        for inp in INS:
            for _ in range(scale(14, 160)):
                nm = names(inp)
                d = doc(r, nm, r.choice([3, 8, 14]))
                e = enc.encode(inp, d)
                cuts = cutting(r, len(e[0])) if e and r.random() < .5 else None
                s = pipe(r, d, inp, atm, exprs(r, nm, atm, r.choice([1, 2, 3, 5])), sources(r, inp), cuts)
                if s:
                    out.append(s)
    judge(rep, out, "selection on scanned documents")
    # any document: damaged ones, soup; expressions that match nearly everything
    out = []
    ev = [("def", b"d", b"T", b"=", path.typ(1)), ("def", b"d", b"T", b"c", b"=", path.typ(2)), ("def", b"d", b"T", b"o", b"=", path.typ(3)), ("def", b"d", b"T", b"A", b"=", path.typ(4)),
          ("def", b"T", b"A", b"=", path.typ(5)), ("def", b"T", b"T", b"o", b"=", path.typ(6)), ("def", b"d", b"T", b"o", b"x", 1, b"=", path.typ(7))]
    for d in gen.pool("e01", scale(700, 12000), 0x10FFFF, maxlen=120):
        inp = r.choice(INS)
        e = enc.encode(inp, d)
        if e is None:
            inp, e = "UTF8", enc.encode("UTF8", d)
        cuts = cutting(r, len(e[0])) if r.random() < .5 else None
        s = pipe(r, d, inp, r.choice(path.ALL), r.sample(ev, r.randint(1, len(ev))), sources(r, inp), cuts)
        if s:
            out.append(s)
    judge(rep, out, "selection on any document")


def e02(rep):
    r = rng("e02")
    out = []
    n = scale(2000, 30000)
    for k in range(n):
        inp = r.choice(INS)
        nm = names(inp)
        d = doc(r, nm, r.choice([1, 3, 6]), decl=.8)
        if r.random() < .2:
            d = gen.Gen(r, 0xFFFD).mutate(d)
        e = enc.encode(inp, d)
        if e is None:
            continue
        cuts = cutting(r, len(e[0])) if r.random() < .8 else [len(e[0])]
        atm = r.choice(path.ALL)
        s = pipe(r, d, inp, atm, exprs(r, nm, atm, r.choice([0, 1, 2])), "S", cuts, head=True)
        if s:
            out.append(s)
    judge(rep, out, "header parsed, then scanned")
    printed(rep, r)


def printed(rep, r):
    """documents written by the printer: the encoding declared is found by the header parser, then scanned and selected"""
    jobs = []
    for app in prn.APPS:
        for io in prn.IOS:
            for _ in range(scale(3, 30)):
                sub, h = prn.document(r, app, 3)
                h = [x for x in h if x[0] != "hdr"]
                name = r.choice(["UTF-8", "utf8", "ISO-8859-1", "UTF-16BE", "x.y:z", "ucs 4"])
                h = [["hdr", prn.ascii_(name), r.choice([[-1], prn.ascii_("yes"), prn.ascii_("no")])]] + h
                jobs.append((app, io, name, prn.to_ops(app, h)))
    scs = [prn.prn_script(r, app, io, False, script.plain(ops, [])) for app, io, _, ops in jobs]
    ans = script.harness().run([s.line() for s in scs])
    rep.execs += len(scs)
    out = []
    for (app, io, name, ops), s, a in zip(jobs, scs, ans):
        res = a.split(";")
        if len(res) != len(s.ops) or any(x[:1] != "x" for x in res[1:]):
            rep.violation("printing fails: %s" % a[:300], {"request": s.line(), "answer": a})
            return
        data = b"".join(bytes.fromhex(x[3:]) for x in res[1:])
        d = enc.decode(io, data)
        if enc.encode(io, d) is None:
            rep.violation("the printed document is not in the encoding %s" % io, {"request": s.line(), "answer": a})
            return
        atm = r.choice(path.ALL)
        x = pipe(r, d, io, atm, [("def", b"d", b"T", b"o", b"=", path.typ(3)), ("def", b"d", b"T", b"A", b"=", path.typ(4))], "S", cutting(r, len(data)), decl=name.encode(), head=True)
        if x:
            out.append(x)
    judge(rep, out, "printed, header parsed, scanned")


def copies(rep, r):
    out = []
    for _ in range(scale(250, 3000)):
        inp, atm = r.choice(INS), r.choice(path.ALL)
        nm = names(inp)
        d = doc(r, nm, 5)
        s = pipe(r, d, inp, atm, exprs(r, nm, atm, 2), "S", None, weave=True)
        if s:
            out.append(s)
    judge(rep, out, "copies of scanners with their selections")


DUP_IN = ["UTF8", "UTF8", "ISO1", "UTF16BE", "UTF16LE", "UCS2BE", "UCS4LE"]


def items_of(b):
    r = []
    while b:
        n = 5 + (b[1] << 24 | b[2] << 16 | b[3] << 8 | b[4])
        r.append(b[0])
        b = b[n:]
    return r


def copier(r, d, inp, app, io, src="S", cuts=None, weave=False):
    e = enc.encode(inp, d)
    if e is None or not scan.okrefs(d):
        return None
    h = dict(doc=e[0], page=enc.iso_page(inp) if inp.startswith("ISO") else 0, ents=int(r.random() < (.7 if has(d) else .1)), sub=int(r.random() < (.2 if d[:2] == [60, 63] else .9)))
    if src == "S" and cuts:
        h.update(ctor=1, cuts=cuts)
    if src == "C":
        h["ctor"] = r.randrange(3)
    if src == "I":
        h.update(ctor=r.randrange(3), bufsize=r.choice([1, 2, 3, 7, 16, 8192]))
    n = nexts(d)
    seq = [("next",)] * r.choice([n, n, n, r.randint(1, n)])
    seq = script.weave(r, seq, [("next",), ("next",), ("scan",)], [("scan",)], p=.1) if weave and src != "I" else script.plain(seq, [("scan",)])   # copies of iterators on a stream share it
    name = lambda e: "ISO1" if e == "IsoLatin" else e
    return Script("dup%s%s-%s-%s" % (src, path.cls(inp), app, io), h, {"doc": d, "enc": inp, "app": name(app), "io": name(io), "ents": bool(h["ents"]), "sub": bool(h["sub"])}, seq)


def e03(rep):
    r = rng("e03")
    out, dam, mod = [], [], []
    for d in script.tour(rep, "CopierModel", "DOC", cfg="CopierModel%s.cfg" % ("" if quick() else "Deep")):
        for app, io in r.sample(script.DUPS, 2):
            mod.append(copier(r, d, r.choice([e for e in DUP_IN if enc.encode(e, d)]), app, io, cuts=[1] * (4 * len(d)) if r.random() < .3 else None))
    for app, io in script.DUPS:
        for inp in DUP_IN:
            for _ in range(scale(48, 500)):
                d = doc(r, names(inp), r.choice([3, 8, 14]))
                e = enc.encode(inp, d)
                if e:
                    src = r.choice("SSCI") if inp == "UTF8" else "S"
                    out.append(copier(r, d, inp, app, io, src, cutting(r, len(e[0])) if r.random() < .4 else None, weave=r.random() < .25))
    for d in gen.pool("e03", scale(2000, 24000), 0x10FFFF, maxlen=120):
        inp = r.choice(DUP_IN)
        e = enc.encode(inp, d)
        if e is None:
            inp, e = "UTF8", enc.encode("UTF8", d)
        app, io = r.choice(script.DUPS)
        src = r.choice("SSCI") if inp == "UTF8" else "S"
        dam.append(copier(r, d, inp, app, io, src, cutting(r, len(e[0])) if r.random() < .4 else None, weave=r.random() < .25))
    # every sequence of a few pieces, well formed or not
    pieces = ["<a>", "</a>", "</b>", "<c/>", "\n", "x", "<a b='1'>", "</ >"]
    seqs = [t for n in range(scale(4, 5)) for t in itertools.product(pieces, repeat=n)] + [tuple(r.choice(pieces) for _ in range(r.randint(4, 7))) for _ in range(scale(400, 4000))]
    for t in seqs:
        d = [ord(c) for c in r.choice(["", "<?xml version='1.0'?>", "<?xml?>\n"]) + "".join(t)]
        inp = r.choice(DUP_IN)
        app, io = r.choice(script.DUPS)
        dam.append(copier(r, d, inp, app, io, "S", None))
    for label, scs in (("documents of the model copied", mod), ("copied documents", out), ("any documents copied", dam)):
        runs = script.judge(rep, [s for s in scs if s], "CopierTrace", label)
        rep.info["items copied"] = rep.info.get("items copied", 0) + sum(1 for x in runs for o in x["ops"] if o[0] == "next" and len(o[3][1]) > 1 and o[3][1][1] == 1)
        rep.info["items of copies"] = rep.info.get("items of copies", 0) + sum(len(items_of(o[3][1])) for x in runs for o in x["ops"] if o[0] == "scan" and o[3][0] == "" and o[3][1][-5:] == [14, 0, 0, 0, 0])


def judge(rep, scs, label):
    runs = script.judge(rep, scs, "PipelineTrace", label)
    n = 0
    for x in runs:
        for o in x["ops"]:
            v = o[3][1]
            if o[0] == "next" and len(v) >= 5 and len(v) > 5 + v[1] * 16777216 + v[2] * 65536 + v[3] * 256 + v[4]:
                n += 1
    rep.info["items with selections"] = rep.info.get("items with selections", 0) + n
