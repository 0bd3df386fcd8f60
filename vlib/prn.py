"""The printer and the tag stack (R01..R03)."""
from .core import *
from . import enc, script, misc, scan
from .script import Script
from .text import cls, ISOS, POINTS

APPS = ["ISO1"] + enc.ENCS
IOS = ISOS + enc.ENCS
OBS = [("sta",), ("err",)]
TEXTCH = [1, 5, 8, 9, 10, 13, 31, 32, 33, 34, 35, 38, 39, 45, 47, 59, 60, 61, 62, 63, 91, 93, 97, 127, 128, 133, 160, 233, 255, 256, 0x104, 0x20AC, 0x2028, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF,
          0x10000, 0x10FFFF, 0x110000, 0x1FFFFF, 0x7FFFFFFE]
NAMECH = [97, 98, 90, 95, 45, 46, 58, 48, 57, 233, 0x104, 0x20AC, 0xE000, 0x10000]


def r03(rep):
    script.judge(rep, misc.stack_scripts(rep, rng("r03"), False), "TagStackTrace", "tag stack")


def fit(app, cs):
    return [c for c in cs if enc.can(app, c)]


def e(app, cs):
    return enc.encode(app, cs)[0]


def opt(app, t):
    """optional null terminated string"""
    if t is None:
        return b"\0"
    return b"\1" + (e(app, t) if enc.unit(app) == 1 else bytes(t))


def to_ops(app, hist):
    """calls with texts -> operations with bytes"""
    out = []
    for h in hist:
        op, a = h[0], h[1:]
        if op in ("hdr", "doc"):
            out.append((op,) + tuple(opt(app, None if x == [-1] else x) for x in a))
        elif op == "pch":
            out.append((op, bytes([a[0]])))
        elif op == "pst":
            out.append((op, opt(app, fit(app, a[0]) if enc.unit(app) == 1 else [c for c in a[0] if c < 256])[1:]))
        elif op in ("opn", "atr", "val", "raw", "pav", "pct", "sub"):
            out.append((op, e(app, fit(app, a[0]))))
        elif op == "rst":
            out.append((op, bytes([1 if a[0] else 0])))
        else:
            out.append((op,))
    return out


def prn_script(r, app, io, sub, ops, outs="VBO"):
    a = cls(app)
    if app == "UTF8" and r.random() < .2:
        a = r.choice(outs)
    hp = {"sub": int(sub), "page": enc.iso_page(io), "ctor": 1 if io == "ISO1" and r.random() < .5 or r.random() < .3 else 0}
    if io.startswith("ISO") and io != "ISO1":
        hp["ctor"] = 0
    if hp["ctor"]:
        hp["page"] = 0
    return Script("prn%s-%s" % (a, cls(io)), hp, {"app": app, "io": io, "sub": bool(sub), "wide": enc.unit(app) != 1}, ops)


def text(r, app, n, chars):
    cs = fit(app, chars)
    if r.random() < .3:
        cs = cs + [r.randint(1, 0x2FF) for _ in range(5)]
        cs = fit(app, cs)
    return [r.choice(cs) for _ in range(r.randint(0, n))]


def name(r, app):
    n = [r.choice(fit(app, NAMECH[:3]))] + text(r, app, r.choice([0, 2, 8]), NAMECH)
    if r.random() < .05:
        n = n + [97] * r.choice([30, 250, 300])
    return [c for c in n if c in NAMECH]


def ascii_(s):
    return [ord(c) for c in s]


def history(r, app, n, wild):
    """random calls; wild: also where they are not accepted"""
    out = []
    st, depth, root = "init", 0, False

    def oh():
        return r.choice([[-1], ascii_(r.choice(["UTF-8", "isolatin-1", "x"]))])
    for _ in range(n):
        x = r.random()
        if wild and x < .25:
            out.append(r.choice([["hdr", oh(), r.choice([[-1], ascii_("yes")])], ["doc", r.choice([[-1], ascii_("r")]), r.choice([[-1], ascii_("p")]), r.choice([[-1], ascii_("s")])],
                                 ["opn", name(r, app)], ["atr", name(r, app)], ["val", text(r, app, 3, TEXTCH)], ["cls"], ["ext"], ["cls"], ["rst", r.choice([[], [1]])] if r.random() < .15 else ["sta"],
                                 ["opn", []] if r.random() < .1 else ["cls"]]))
            continue
        if x < .35:
            op = r.choice(["raw", "pav", "pct", "pch", "pst", "sub"])
            out.append([op, r.choice([1, 9, 10, 34, 60, 65, 97, 127, 128, 160, 233, 255]) if op == "pch" else text(r, app, r.choice([1, 5]), TEXTCH + [98, 98, 10])])
            continue
        out.append(r.choice([["opn", name(r, app)], ["opn", name(r, app)], ["atr", name(r, app)], ["val", text(r, app, 8, TEXTCH)], ["val", text(r, app, 8, TEXTCH)], ["cls"], ["ext"]]))
    return out


def r01(rep):
    r = rng("r01")
    scan.design(rep, "PrinterModel")
    hs = script.tour(rep, "PrinterTour")
    out = []
    for h in hs:
        app, io = r.choice(APPS), r.choice(IOS)
        out.append(prn_script(r, app, io, h["sub"], script.plain(to_ops(app, h["h"]), OBS)))
    for _ in range(scale(1500, 15000)):
        app, io = r.choice(APPS), r.choice(IOS)
        h = history(r, app, r.choice([5, 15, 40]), True)
        if r.random() < .6:
            h = [["hdr", [-1], [-1]]] + h
        out.append(prn_script(r, app, io, r.random() < .5, script.plain(to_ops(app, h), OBS)))
    # every combination of encodings
    for app in APPS:
        for io in IOS:
            h = [["hdr", ascii_("x"), ascii_("no")], ["doc", ascii_("a"), ascii_("b"), ascii_("c")], ["opn", name(r, app)], ["atr", name(r, app)], ["val", text(r, app, 20, TEXTCH)],
                 ["val", text(r, app, 20, TEXTCH)], ["opn", name(r, app)], ["cls"], ["cls"]]
            out.append(prn_script(r, app, io, False, script.plain(to_ops(app, h), OBS)))
    # texts up to the first null character
    for _ in range(scale(60, 600)):
        app, io = r.choice(APPS), r.choice(IOS)
        out.append(prn_script(r, app, io, True, [("opn", 0, e(app, [97])), ("atr", 0, e(app, [98])), ("val", 0, e(app, text(r, app, 6, TEXTCH))), ("val", 0, e(app, text(r, app, 6, TEXTCH)))]))
    script.judge(rep, out, "PrinterTrace", "calls of the printer")
    if not rep.violations:
        script.judge(rep, [prn_script(r, app, io, sub, script.plain(ops, [])) for app, io, sub, ops in large(r)], "PrinterTrace", "long texts")


LONG = [126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]


def large(r, legal=False):
    """names, texts and depths of the sizes where counters of few bits end: (app, io, sub, ops)"""
    jobs = []

    def word(app, n):
        cs = [c for c in fit(app, NAMECH) if c < 128]
        return [r.choice(cs[:3])] + [r.choice(cs) for _ in range(n - 2)] + [r.choice(cs[:3])] * (n > 1)

    def nested(app, ns, val):
        h = [["opn", [114]]]
        for n in ns:
            h += [["opn", word(app, n)], ["atr", word(app, n)], ["val", word(app, n) if val else [97]]] + ([["val", word(app, n)]] if val else [])
        for n in ns + [1]:
            h += [["val", [120]], ["cls"]] if r.random() < .7 else [["opn", [98]], ["cls"], ["cls"]]
        return h
    for app, io in [("UTF8", "UTF8"), ("UTF8", "UTF16LE"), ("UCS4BE", "UTF8"), ("UTF16LE", "UCS2BE"), ("ISO1", "UCS4LE")] + ([] if quick() else [(a, i) for a in APPS for i in IOS]):
        for n in LONG:
            jobs.append((app, io, nested(app, [n], True)))
        jobs.append((app, io, nested(app, [r.choice(LONG) for _ in range(3)], False)))
        for n in [62, 63, 64, 65] * (enc.unit(app) > 1):
            jobs.append((app, io, nested(app, [n], True)))
    for n in scale([4096, 65535, 65536, 65540], [4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 65540, 70000, 131072 + 7]):
        jobs.append(("UTF8", "UTF8", nested("UTF8", [n], n < 66000)))
        if not quick():
            jobs.append(("ISO2", "UTF8", nested("ISO2", [3, n, 5], False)))
    for d in scale([130, 300], [126, 130, 254, 258, 300, 600, 1030]):
        h = [["opn", [97 + k % 26] * (1 + k % 3)] for k in range(d)]
        for k in range(d):
            h += [["cls"]] if r.random() < .8 else [["val", [120]], ["cls"]]
        jobs.append(("UTF8", r.choice(["UTF8", "UTF16BE"]), h))
    return [(app, io, True, to_ops(app, h)) for app, io, h in jobs]


def document(r, app, size):
    """legal calls that write a complete document, with calls that are rejected in between"""
    out = []
    sub = r.random() < .3

    def noise(ctx):
        if r.random() < .12:
            if ctx == "attr":
                out.append(r.choice([["opn", ascii_("x")], ["cls"], ["atr", ascii_("y")], ["ext"]]))
            elif ctx == "content":
                out.append(r.choice([["atr", ascii_("y")], ["hdr", [-1], [-1]], ["ext"]]))
            elif ctx == "tag":
                out.append(r.choice([["hdr", [-1], [-1]], ["doc", ascii_("y"), [-1], [-1]]]))
            elif ctx == "init":
                out.append(r.choice([["opn", ascii_("x")], ["cls"], ["val", ascii_("x")], ["atr", ascii_("x")], ["ext"], ["doc", ascii_("y"), [-1], [-1]]]))
    if not sub:
        noise("init")
        out.append(["hdr", r.choice([[-1], ascii_("ISO-8859-1")]), r.choice([[-1], ascii_("yes"), ascii_("no")])])
    if r.random() < .3:
        out.append(["doc", ascii_(r.choice(["a", "html"])), r.choice([[-1], ascii_("-//W3C//DTD XHTML 1.0//EN")]), ascii_("http://x.y/z")] if r.random() < .7 else ["doc", ascii_("abc"), [-1], [-1]])
    left = [size]

    def element(d):
        left[0] -= 1
        out.append(["opn", name(r, app)])
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            noise("tag")
            out.append(["atr", name(r, app)])
            noise("attr")
            out.append(["val", text(r, app, r.choice([1, 3, 12]), TEXTCH)])
        noise("tag")
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            if r.random() < .5:
                out.append(["val", text(r, app, r.choice([1, 3, 12]), TEXTCH)])
                noise("content")
            elif left[0] > 0 and d < 6:
                element(d + 1)
                noise("content")
            elif r.random() < .3:
                out.append(["ext"])
        out.append(["cls"])
    element(0)
    if sub and r.random() < .3:
        element(0)
    return sub, out


OUTENC = ["UTF8", "UTF8", "UTF8", "ISO1", "UCS2BE", "UTF16LE", "UCS4LE"]


def r02(rep):
    r = rng("r02")
    for c in ("PrinterModel", "PrinterModelText") + (() if quick() else ("PrinterModelDeep", "PrinterModelTextDeep", "PrinterModelNames")):
        scan.design(rep, "PrinterModel", cfg=c + ".cfg")
    jobs = []
    for app in APPS:
        for io in IOS:
            for _ in range(scale(12, 150)):
                sub, h = document(r, app, r.choice([1, 3, 8]))
                jobs.append((app, io, sub, to_ops(app, h)))
            # every special character alone, in attribute and content
            for c in (TEXTCH if not quick() else r.sample(TEXTCH, 6)):
                if enc.can(app, c):
                    h = [["opn", [97]], ["atr", [98]], ["val", [c]], ["val", [c]], ["opn", [97]], ["atr", [98]], ["val", [c, c]], ["val", [97, c, c]], ["cls"], ["val", [c, 98]], ["cls"]]
                    jobs.append((app, io, True, to_ops(app, h)))
    scs = [prn_script(r, app, io, sub, script.plain(ops, [])) for app, io, sub, ops in jobs]
    h = script.harness()
    ans = h.run([s.line() for s in scs])
    rep.execs += len(scs)
    cases, recs = [], []
    for (app, io, sub, ops), s, a in zip(jobs, scs, ans):
        res = a.split(";")
        if len(res) != len(s.ops) or any(x[:1] != "x" for x in res[1:]):
            rep.violation("printing fails: %s" % a[:300], {"request": s.line(), "answer": a})
            return
        data = b"".join(bytes.fromhex(x[3:]) for x in res[1:])
        out = r.choice(OUTENC)
        inp = io
        c = RawCase(data, inp, out, r.choice(["n", "n", "i"]))
        calls = [[o[0], [list(x) for x in o[2:]], int(x[1:3])] for o, x in zip(s.ops[1:], res[1:])]
        cases.append(c)
        recs.append({"p": s.p, "calls": calls, "view": c.view, "req": s.line()[:3000], "scan": c.line[:3000]})
    sa = scan.runcases(cases)
    rep.execs += len(cases)
    for rec, c, a in zip(recs, cases, sa):
        rec["items"] = c.items(a)
    rep.sample({"request": recs[0]["req"][:400], "items": recs[0]["items"][:10]})
    rep.sample({"request": recs[-1]["req"][:400], "items": recs[-1]["items"][:10]})
    n = 4000
    for k in range(0, len(recs), n):
        validate(rep, "PrinterScan", recs[k:k + n], "printed document read by the scanner")
        if rep.violations:
            return


class RawCase:
    """scan of bytes"""

    def __init__(self, data, inp, out, mode):
        page = enc.iso_page(inp)
        self.out = out
        self.view = "full" if out == "UTF8" else {"UCS2LE": "UCS2BE", "UTF16LE": "UTF16BE"}.get(out, out)
        self.line = "scan %s/%s/S %d %s - 0 %s - 8192 -1" % (cls(inp), cls(out), page, "n", data.hex() or "-")

    def items(self, answer):
        toks = answer.split(" ")
        if toks[0] != "":
            return [[answer[:200], []]]
        items = []
        for t in toks[1:]:
            ty, c = t.split(",")[:2]
            items.append([ty, enc.decode(self.out, bytes.fromhex(c)) if ty not in ("ErrorOccurred",) else []])
            if ty == "Exit":
                break
        return items


def copies(rep, r):
    out = []
    for h in r.sample(script.tour(rep, "PrinterTour"), scale(600, 3000)):
        app, io = r.choice(APPS), r.choice(IOS)
        out.append(prn_script(r, app, io, h["sub"], script.weave(r, to_ops(app, h["h"]), [("cls",), ("opn", e(app, [120])), ("rst", b"\0"), ("rst", b"\1"), ("ext",)], OBS)))
    for _ in range(scale(500, 6000)):
        app, io = r.choice(APPS), r.choice(IOS)
        sub, h = document(r, app, 5)
        out.append(prn_script(r, app, io, sub, script.weave(r, to_ops(app, h), [("cls",), ("opn", e(app, [120])), ("rst", b"\0"), ("rst", b"\1"), ("ext",)], OBS)))
    script.judge(rep, out, "PrinterTrace", "copies of the printer")
