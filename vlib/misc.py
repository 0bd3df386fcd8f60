"""Source iterators (part of S03, S08), buffers, copies, read failures (M01..M03)."""
import os, json
from .core import *
from . import enc, gen, script, path
from .script import Script


# ------------------------------------------------------------------ source iterators
def chunks_of(r, n, maxc=6):
    cuts, left = [], n
    while left > 0 and len(cuts) < 40:
        k = min(left, r.choice([0, 1, 1, 2, 3, 5, 9]))
        cuts.append(k)
        left -= k
    if left > 0:
        cuts.append(left)
    return cuts or [0]


def source_params(r, kind, data, chunked=False):
    hp = {"doc": data}
    p = {"kind": kind, "bytes": list(data), "chunks": [len(data)], "open": False, "fail": -1, "faillo": -1}
    if kind == "S" and chunked:
        c = chunks_of(r, len(data))
        hp.update(ctor=1, cuts=c)
        p.update(chunks=c, open=True)
    elif kind == "C":
        hp["ctor"] = r.choice([0, 2] + ([1] if 0 not in data else []))
    elif kind == "I":
        hp["ctor"] = r.choice([0, 0, 1, 2])
        hp["bufsize"] = r.choice([1, 2, 3, 4, 5, 7, 16, 64, 8192])
        c = r.choice([[], [1], [2], [3, 1], [1, 2, 5], [7, 64]])
        if c:
            hp["cuts"] = c
    return hp, p


def walk(r, kind, n, length, shared, chunks, open_):
    """random but legal use of iterators: increment only after having seen the byte; after the end of the chunk put the next"""
    ops = []
    live = {0: dict(at=0, e=chunks[0], k=1, eof=not open_)}
    st = live
    for _ in range(length):
        s = r.choice(list(st))
        o = st[s]
        x = r.random()
        if x < .62:
            ops.append(("get", s))
            if o["at"] < o["e"] or o["eof"]:
                if r.random() < .9:
                    ops.append(("inc", s))
                    o["at"] += 1
            else:
                ops.append(("put", s))
                if o["k"] < len(chunks):
                    o["at"] = o["e"]
                    o["e"] += chunks[o["k"]]
                    o["k"] += 1
                else:
                    o["at"] = o["e"]
                    o["eof"] = True
        elif x < .72:
            ops.append(("pos", s))
            ops.append((r.choice(["cpos", "eoc", "pos"]), s))
        elif x < .76 and kind == "C":
            k = r.randint(0, n + 3)
            ops.append(("set", s, k))
            o["at"] = min(k, n)
        elif x < .86 and not shared:
            t = r.choice([0, 1, 2, 3])
            if t in st and t != s:
                ops.append(("dif", s, t))
            if t != s:
                ops.append(("as" if t in st and r.random() < .6 else "cp", t, s))
                st[t] = dict(o)
        elif x < .9 and shared:
            # the input is shared: the copy continues, the original is dropped
            t = (s + 1) % 4
            ops += [("get", s), ("cp", t, s)]
            if r.random() < .5:
                ops += [("def", t), ("get", t), ("as", t, s)]
            ops.append(("rm", s))
            st[t] = dict(o)
            del st[s]
        elif x < .93 and len(st) > 1:
            ops.append(("rm", s))
            del st[s]
        elif x < .95 and kind == "S" and o["k"] < len(chunks):
            # an iterator default constructed that gets the next chunk
            ops += [("def", s), ("get", s), ("put", s), ("pos", s), ("cpos", s), ("get", s)]
            o["at"] = o["e"]
            o["e"] += chunks[o["k"]]
            o["k"] += 1
            o["eof"] = False
        elif x < .97 and len(st) > 1:
            # not initialised iterator, then assigned
            t = r.choice([k for k in st if k != s])
            ops += [("def", s), ("get", s), ("as", s, t)]
            if not shared:
                st[s] = dict(st[t])
    return ops


def iterators(rep):
    r = rng("iterators")
    out = []
    for _ in range(scale(1500, 12000)):
        kind = r.choice("CISS")
        n = r.choice([0, 1, 2, 3, 5, 8, 13, 30])
        data = bytes(r.choice([0, 1, 10, 13, 60, 65, 127, 128, 194, 255, r.randint(0, 255)]) for _ in range(n))
        hp, p = source_params(r, kind, data, chunked=r.random() < .7)
        shared = False
        if kind == "I" and not (hp["bufsize"] > n + 1 and "cuts" not in hp and hp["ctor"] == 0):
            shared = True
        out.append(Script("src" + kind, hp, p, walk(r, kind, n, r.choice([5, 20, 60]), shared, p["chunks"], p["open"])))
    # every byte of longer inputs in order, positions at every step
    for _ in range(scale(60, 600)):
        kind = r.choice("CIIS")
        n = r.choice([50, 200, 700])
        data = bytes(r.randint(0, 255) for _ in range(n))
        hp, p = source_params(r, kind, data)
        ops = []
        for k in range(n + 3):
            ops += [("get", 0), ("pos", 0), ("inc", 0)]
        out.append(Script("src" + kind, hp, p, ops))
    script.judge(rep, out, "SourceTrace", "source iterators")
    streams(rep, r, False)
    script.judge(rep, long_sources(r), "SourceTrace", "source iterators, long documents")


def streams(rep, r, failing):
    """the input stream on a standard stream without an iterator"""
    out = []
    for _ in range(scale(250, 3000)):
        n = r.choice([0, 1, 2, 5, 15, 16, 17, 31, 32, 33, 60])
        data = bytes(r.randint(0, 255) for _ in range(n))
        hp = {"doc": data}
        fail = r.randint(0, n) if failing and r.random() < .8 else -1
        if fail >= 0:
            hp["fail"] = fail
        if r.random() < .5:
            hp["cuts"] = r.choice([[1], [2], [3, 1], [1, 2, 5], [16]])
        ops, k = [], 0
        for _ in range(r.choice([2, 5, 12])):
            x = r.random()
            if x < .7:
                ops.append(("read", k, r.choice([1, 1, 2, 3, 7, 15, 16, 17, 40, n or 1, n + 1])))
            if x > .5:
                ops.append(("err", k))
            if r.random() < .15:
                j = (k + 1) % 4
                ops += [("cp", j, k), ("rm", k)]
                k = j
        ops += [("err", k), ("read", k, n + 1), ("err", k), ("read", k, 3), ("err", k)]
        out.append(Script("ist", hp, {"bytes": list(data), "fail": fail}, [("err", 0)] * (r.random() < .5) + ops))
    script.judge(rep, out, "StreamTrace", "standard input streams")


BIG = [127, 128, 255, 256, 257, 511, 512, 4095, 4096, 8191, 8192, 32767, 32768, 65535, 65536, 65537]


def long_sources(r):
    """documents, buffers and chunks of the sizes where counters of few bits end"""
    out = []
    for n in scale([300, 9000, 70000, 140000], [300, 600, 9000, 33000, 70000, 140000, 300000]):
        data = bytes(r.randint(0, 255) for _ in range(n))
        for kind, bs in [("C", 0), ("S", 0), ("S", 1), ("S", 2)] + [("I", k) for k in BIG + [70000, 100000, 131071, 131072, 131073] if k <= 2 * n + 10]:
            hp, p = {"doc": data}, {"kind": kind, "bytes": list(data), "chunks": [n], "open": False, "fail": -1, "faillo": -1}
            if kind == "C":
                hp["ctor"] = r.choice([0, 2])
            elif kind == "I":
                hp.update(ctor=0, bufsize=bs)
                if r.random() < .4:
                    hp["cuts"] = [r.choice([b for b in BIG if b >= n // 40]) for _ in range(3)]
            elif bs:
                c, left = [], n
                while left > 0 and len(c) < 30:
                    c.append(min(left, r.choice(BIG)))
                    left -= c[-1]
                c += [left] if left else []
                hp.update(ctor=1, cuts=c)
                p.update(chunks=c, open=True)
            stops = set(r.randint(0, n) for _ in range(12)) | {n, n - 1}
            for b in BIG + [bs, 2 * bs, 131072] + ([sum(p["chunks"][:k]) for k in range(len(p["chunks"]))]):
                stops |= {b - 1, b, b + 1}
            ops, at, end, k = [], 0, p["chunks"][0], 1
            for t in sorted(x for x in stops if 0 <= x <= n):
                while t > end or (t == end and p["open"]):        # the next chunk is needed
                    if k == len(p["chunks"]):
                        break
                    ops += [("adv", 0, end - at), ("eoc", 0), ("get", 0), ("put", 0), ("pos", 0), ("get", 0)]
                    at, end, k = end, end + p["chunks"][k], k + 1
                if t > at:
                    ops.append(("adv", 0, t - at))
                at = t
                ops += [("get", 0), ("pos", 0), ("cpos", 0), ("eoc", 0)]
            if kind == "C":
                for t in r.sample(sorted(x for x in stops if 0 <= x <= n), 12):
                    ops += [("set", 0, t), ("get", 0), ("pos", 0), ("cp", 1, 0), ("inc", 1), ("get", 1), ("dif", 1, 0)]
            out.append(Script("src" + kind, hp, p, ops))
    return out


# ------------------------------------------------------------------ static buffer
BOBS = [("all",), ("ovf",)]


def refop(r):
    c = r.choice([0, 1, 15, 16, 38, 65, 255, 256, 0xFFFF, 0x10FFFF, 0x7FFFFFFE, r.randint(1, 1 << r.randint(1, 30))])
    return ("ref", c, max(0, r.choice([0, 1, 4, 32, len("&#x%x;" % c) + r.randint(-3, 2)])))


def bufop(r, size):
    x = r.random()
    if x < .03:
        return refop(r)
    if x < .3:
        return ("psh", r.choice([0, 65, 255, r.randint(0, 255)]))
    if x < .55:
        return ("app", bytes(r.randint(0, 255) for _ in range(r.choice([0, 1, 2, 3, size // 2, size, size + 1, size + 7]))))
    if x < .62:
        return ("clr",)
    if x < .75:
        n = r.choice([0, 1, size // 2, size - 1, size, size + 1, size + 100, 2 * size])
        return ("rsz", max(0, n), r.randint(0, 255))
    if x < .85:
        return (r.choice(["idx", "at"]), r.choice([0, 1, size // 2, max(0, size - 1), size, size + 1, (1 << 31) - 1]))
    if x < .93:
        return ("wr", r.choice([0, 1, size // 2, max(0, size - 1), size, size + 1]), r.randint(0, 255))
    return r.choice(BOBS)


def fixargs(o):
    """arguments as the specification writes them -> arguments of the harness"""
    if o[0] == "app":
        return ("app", bytes(o[1]))
    return (o[0],) + tuple(x[0] for x in o[1:])


def buffer_scripts(rep, r, copies):
    out = []
    hs = script.tour(rep, "BufferTour")
    for h in hs:
        p = h["p"]
        ops = [fixargs(o) for o in h["h"]]
        for ctor in ([1] if p["fill"] else [r.choice([0, 2])]):
            hp = {"size": p["size"], "fill": p["fill"], "ctor": ctor}
            if copies:
                if r.random() < .3:
                    out.append(Script("buf", hp, p, script.weave(r, ops, [bufop(r, p["size"]) for _ in range(4)], BOBS)))
            else:
                out.append(Script("buf", hp, p, script.plain(ops, BOBS)))
    for _ in range(scale(1200, 15000)):
        size = r.choice([0, 1, 2, 3, 7, 8, 16, 33, 100])
        fill = r.choice([0, 0, 1, size]) if size else 0
        hp = {"size": size, "fill": fill, "ctor": 1 if fill else r.choice([0, 1, 2])}
        ops = [bufop(r, size) for _ in range(r.choice([4, 12, 30]))]
        ops = [("rsz", o[1], o[2]) if o[0] == "rsz" and o[1] < (1 << 31) else ((o[0], min(o[1], (1 << 31) - 1)) + o[2:] if o[0] in ("idx", "at", "wr") else o) for o in ops]
        p = {"size": size, "fill": fill}
        if copies:
            out.append(Script("buf", hp, p, script.weave(r, ops, [("clr",), ("psh", 1), ("rsz", 0, 0), ("app", b"1234567")], BOBS)))
        else:
            out.append(Script("buf", hp, p, script.plain(ops, BOBS)))
    for size in scale([127, 256, 65535, 65536, 65537, 70000], BIG + [70000, 131071, 131072, 131073, 200000]):     # counters of few bits end here
        for ctor in (0, 2):
            fill = size - r.choice([0, 1, 2, 3, 5])
            ops = [("app", bytes([r.randint(1, 255)]) * fill)] + [("psh", r.randint(1, 255)) for _ in range(r.randint(1, 4))]
            ops += [r.choice([("psh", 1), ("app", b"xy"), ("rsz", size, 0), ("rsz", size + 1, 0), ("rsz", size - 1, 0), ("rsz", size & 0xFF, 0), ("rsz", size & 0xFFFF, 0), ("rsz", max(0, size - 256), 0), ("clr",),
                               (r.choice(["idx", "at"]), r.choice([0, size - 1, size, size - 256, size - 65536, size + 256, size + 65536])), ("wr", r.choice([size - 1, size - 256, size - 65536, 0, size]), 7)]) for _ in range(8)]
            ops = [(o[0],) + tuple(max(0, v) if isinstance(v, int) else v for v in o[1:]) for o in ops]
            out.append(Script("buf", {"size": size, "fill": 0, "ctor": ctor}, {"size": size, "fill": 0},
                              script.weave(r, ops, [("clr",), ("psh", 1)], [("ovf",)], p=.1) if copies else script.plain(ops, BOBS)))
    if not copies:
        for _ in range(scale(40, 400)):
            out.append(Script("buf", {"size": 0, "fill": 0, "ctor": 0}, {"size": 0, "fill": 0}, script.plain([refop(r) for _ in range(12)], [])))
        for _ in range(scale(60, 600)):      # a stream as buffer
            n = r.choice([0, 1, 2, 3, 10, 300])
            ops = [r.choice([("psh", r.randint(0, 255)), ("app", bytes(r.randint(0, 255) for _ in range(r.choice([0, 1, 2, n])))), ("self",)]) for _ in range(r.randint(1, 12))]
            out.append(Script("oso", {}, {"size": 1000000, "fill": 0}, script.plain(ops, [("all",)])))
    return out


def m01(rep):
    from . import scan
    r = rng("m01")
    script.judge(rep, buffer_scripts(rep, r, False), "BufferTrace", "static buffer")
    if rep.violations:
        return
    # the scanner with a static buffer as output
    cases = []
    for d in scan.docs("m01", scale(900, 12000)):
        for cap in (1, 5, 16):
            try:
                cases.append(scan.Case(d, cap=cap, mode=r.choice(["n", "n", "ns", "d"]), ents=r.random() < .5))
            except ValueError:
                pass
    scan.judge(rep, cases, "scanner with a static buffer")


# ------------------------------------------------------------------ copies
SOBS = [("emp",), ("top",)]


def stackop(r):
    x = r.random()
    if x < .5:
        n = r.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 60, 240, 247, 248, 249, 256, 500, 1100])
        return ("psh", bytes(r.randint(0, 255) if r.random() < .8 else r.choice([0, 8, 255]) for _ in range(n)))
    return r.choice([("pop",), ("pop",), ("top",), ("emp",), ("clr",) if r.random() < .1 else ("top",)])


def stack_scripts(rep, r, copies):
    out = []
    for h in script.tour(rep, "StackTour"):
        ops = [(o[0], bytes(o[1])) if o[0] == "psh" else (o[0],) for o in h["h"]]
        k = len(ops)
        if copies:
            out.append(Script("stack", {}, h["p"], script.weave(r, ops, [("psh", b"abc"), ("pop",), ("clr",)], SOBS)))
        else:
            out.append(Script("stack", {}, h["p"], script.plain(ops, SOBS + [("pop",), ("top",)] * k + SOBS)))
    for _ in range(scale(700, 8000)):
        ops = [stackop(r) for _ in range(r.choice([5, 20, 60]))]
        n = sum(o[0] == "psh" for o in ops)
        if copies:
            out.append(Script("stack", {}, {"x": 0}, script.weave(r, ops + SOBS + [("pop",), ("top",)] * min(n, 8), [("psh", b"abc"), ("psh", b"x" * 300), ("pop",), ("clr",)], SOBS, p=.15)))
        else:
            out.append(Script("stack", {}, {"x": 0}, script.plain(ops, SOBS + [("pop",), ("top",)] * (n + 1) + SOBS)))
    # deep: the memory is extended many times
    for _ in range(scale(12, 60)):
        names = [bytes(r.randint(0, 255) for _ in range(r.choice([0, 1, 3, 8, 13, 31, 64]))) for _ in range(r.choice([100, 400]))]
        ops = [("psh", n) for n in names]
        out.append(Script("stack", {}, {"x": 0}, script.plain(ops, [("top",), ("pop",)] * len(names) + SOBS)))
    # long names
    if not copies:
        for n in BIG[:11] + scale([65535, 65536, 65540], BIG[11:] + [65540, 70000, 131072, 131073]):
            names = [bytes(r.randint(0, 255) for _ in range(k)) for k in ([2, n, 3, n] if n < 9000 else [1, n, 2])]
            out.append(Script("stack", {}, {"x": 0}, script.plain([("psh", x) for x in names], [("top",), ("pop",)] * len(names) + SOBS)))
    return out


def m02(rep):
    r = rng("m02")
    from . import scan, text, hdr, prn, pipe
    # buffers, stacks, header parsers, printers, path selections
    script.judge(rep, buffer_scripts(rep, r, True), "BufferTrace", "copies of static buffers")
    script.judge(rep, stack_scripts(rep, r, True), "TagStackTrace", "copies of tag stacks")
    hdr.copies(rep, r)
    prn.copies(rep, r)
    path.copies(rep, r)
    pipe.copies(rep, r)
    if rep.violations:
        return
    # source iterators
    out = []
    for _ in range(scale(500, 6000)):
        kind = r.choice("CISS")
        n = r.choice([0, 1, 2, 3, 5, 8, 13, 30])
        data = bytes(r.choice([0, 1, 10, 13, 60, 65, 127, 128, 194, 255, r.randint(0, 255)]) for _ in range(n))
        hp, p = source_params(r, kind, data, chunked=r.random() < .7)
        shared = kind == "I" and not (hp["bufsize"] > n + 1 and "cuts" not in hp and hp["ctor"] == 0)
        out.append(Script("src" + kind, hp, p, walk(r, kind, n, r.choice([20, 60]), shared, p["chunks"], p["open"])))
    script.judge(rep, out, "SourceTrace", "copies of source iterators")
    # text scanners
    out = []
    for e in text.ALL:
        for t in text.valid_texts(r, e, scale(14, 150), 8):
            data = enc.encode(e, t)[0]
            it = r.choice("PCS")
            out.append(text.text_script(e, data, it, text.schedule(r, e, len(t) + 2, "mix", True, False), init=r.choice([0, 1]), **(dict(ctor=r.choice([0, 2])) if it == "C" else {})))
    script.judge(rep, out, "TextTrace", "copies of text scanners")
    # copies inside one character, systematically: every width of a character, every state of what was fetched of it,
    # copy construction and assignment over a scanner that stands elsewhere
    out = []
    for e in text.ALL:
        reps = [0x41, 0xE9, 0x20AC, 0x10401, 0x3ABCDE, 0x7BCDEF1A]
        if e.startswith("ISO"):
            m = [c for c in enc.isomap(enc.iso_page(e))[1] if c > 127]
            reps = [0x41, m[5], m[-3]]
        elif e.startswith("UCS2"):
            reps = reps[:3]
        elif e.startswith("UTF16"):
            reps = reps[:4]
        for ch in reps:
            data = enc.encode(e, [ch, 0x42, ch, 0x26, ch])[0]
            for pre in ([], ["chr"], ["ctl"], ["asc"], ["cpy"], ["ctl", "chr"], ["chr", "cpy"]):
                for adv in (0, 2):
                    for how in ("cp", "as"):
                        ops = [("skp", 0)] * adv + [(o, 0) for o in pre]
                        ops += [("cp", 1, 0), ("skp", 1), ("chr", 1)] if how == "as" else []
                        ops += [(how, 1, 0)]
                        for s in r.choice([(1, 0), (0, 1)]):
                            ops += [(r.choice(["chr", "cpy", "asc", "drf"]), s), ("ctl", s), ("chr", s), ("inc", s), ("chr", s), ("skp", s), ("pos", s), ("cpy", s)]
                        out.append(text.text_script(e, data, r.choice("PC"), ops))
    script.judge(rep, out, "TextTrace", "copies inside characters of text scanners")
    if rep.violations:
        return
    # scanners: continued on a copy after every item and every suspension
    cases = []

    def add(d, **kw):
        try:
            cases.append(scan.Case(d, **kw))
        except ValueError:
            pass
    for d in scan.grammar_docs(rep, scale(80, 800)) + scan.docs("m02", scale(300, 4000)):
        for _ in range(2):
            inp, out_ = r.choice(scan.ITS)
            iso = lambda x: "ISO1" if x == "IsoLatin" else x
            add(d, inp=iso(inp), out=iso(out_), it=r.choice("PCI"), mode=r.choice(["nc", "ncr", "na", "nar", "nca"]), ents=r.random() < .5)
        inp, out_ = r.choice(["UTF8", "UTF8", "ISO1"] + enc.ENCS), r.choice(scan.OUTS)
        add(d, inp=inp, out=out_, it="S", mode=r.choice(["nc", "ncr", "na", "nar"]), ents=r.random() < .5, masks=r.choice([None, None, [r.randint(0, 0xFFFF) | 0x4002, 0xFFFF]]))
        total = enc.encode("UTF8", d)[1][-1]
        add(d, mode=r.choice(["nkc", "nka", "nkca"]), ents=r.random() < .5, cuts=scan.splits(r, total, r.choice(["ones", "rnd", "empties"])))
        if enc.encode(inp, d):
            add(d, inp=inp, out=out_, mode=r.choice(["nkc", "nka"]), cuts=scan.splits(r, enc.encode(inp, d)[1][-1], r.choice(["ones", "rnd", "twos"])))
    scan.judge(rep, cases, "copies of scanners")


# ------------------------------------------------------------------ read failures
CAUSES = ["Unknown", "DimOutOfRange", "StateNumbersNotAscending", "InvalidParamState", "InvalidParamChar", "DuplicateStateTransition", "InvalidState", "IllegalParam",
          "IllegalAttributeName", "OutOfMem", "ArrayBoundsReadWrite", "NotAllowedOperation", "FileReadError", "IllegalXmlHeader", "InvalidTagOffset", "CorruptTagStack",
          "CodePageIndexNotSupported"]


def m03(rep):
    from . import scan
    r = rng("m03")
    # names of all exceptions, also of copies
    a = script.harness().run(["causes"])[0]
    rep.execs += 1
    for k, x in enumerate(a.split(";")):
        n = CAUSES[k] if k < len(CAUSES) else "?"
        if x.split("/") != [n] * 4:
            rep.violation("exception with cause %s reports itself as %s" % (n, x), {"request": "causes", "answer": a})
            return
    # iterators
    out = []
    for _ in range(scale(500, 6000)):
        n = r.choice([1, 2, 3, 5, 8, 20, 60])
        data = bytes(r.choice([0, 10, 60, 65, 255]) for _ in range(n))
        ctor = r.choice([0, 0, 1])
        bs = r.choice([1, 2, 3, 4, 7, 16])
        lo = bs if ctor == 1 else 1
        if lo > n:
            continue
        f = r.randint(lo, n)
        hp = {"doc": data, "ctor": ctor, "bufsize": bs, "fail": f}
        if r.random() < .5:
            hp["cuts"] = r.choice([[1], [2], [3, 1], [1, 2, 5]])
        faillo = (f // bs * bs) if ctor == 1 else f
        if ctor == 0 and r.random() < .6:
            # the failing read may deliver bytes, may be followed by the end or by more input
            hp["failmode"] = r.choice([1, 2, 3])
            faillo = scan.failstart(f, bs, hp.get("cuts"))
            if faillo == 0:
                continue      # construction fails, see below
        p = {"kind": "I", "bytes": list(data), "chunks": [n], "open": False, "fail": f, "faillo": faillo}
        ops = []
        for _ in range(f + 1):
            ops += [("get", 0)] * r.choice([1, 1, 2]) + [("pos", 0), ("inc", 0)]
        ops.append(("get", 0))
        out.append(Script("srcI", hp, p, ops))
    script.judge(rep, out, "SourceTrace", "read failures of the stream iterator")
    if rep.violations:
        return
    streams(rep, r, True)
    if rep.violations:
        return
    # the scanner: every offset of many documents
    cases = []
    pool = scan.grammar_docs(rep, scale(60, 600)) + scan.docs("m03", scale(150, 1500))
    for d in pool:
        inp = r.choice(["UTF8", "UTF8", "UTF8", "UTF16LE", "UCS2BE", "IsoLatin", "UCS4LE", "UTF16BE"])
        out_ = r.choice([b for a_, b in scan.ITS if a_ == inp])
        if inp == "IsoLatin":
            inp = "ISO1"
        if out_ == "IsoLatin":
            out_ = "ISO1"
        e = enc.encode(inp, d)
        if e is None:
            inp = out_ = "UTF8"
            e = enc.encode(inp, d)
        n = e[1][-1]
        for f in r.sample(range(n + 1), min(n + 1, scale(14, 60))):
            mode = r.choice(["n", "ns"])
            cases.append(scan.Case(d, inp=inp, out=out_, it="I", mode=mode, ents=r.random() < .5, cuts=r.choice([None, None, [1], [2, 3], [5]]),
                                   bufsize=r.choice([1, 2, 3, 5, 16, 8192]), failat=f, failmode=0 if "s" in mode else r.choice([0, 1, 2, 3])))
    scan.judge(rep, cases, "scanner on a failing stream")


# ------------------------------------------------------------------ definitions of state machines, names, maps of bytes
NAMES = {
    "type": "None ErrorOccurred HeaderStart HeaderAttribName HeaderAttribValue HeaderEnd DocAttribValue DocAttribEnd TagAttribName TagAttribValue OpenTag CloseTag CloseTagIm Content Exit",
    "state": "START STARTTAG XTAG PITAG PITAGEND XTAGEND XTAGDONE XTAGAISK XTAGANAM XTAGAESK XTAGAVSK XTAGAVID XTAGAVSQ XTAGAVDQ XTAGAVQE DOCSTART CONTENT TOKEN SEEKTOK XMLTAG OPENTAG CLOSETAG "
             "TAGCLSK TAGAISK TAGANAM TAGAESK TAGAVSK TAGAVID TAGAVSQ TAGAVDQ TAGAVQE TAGCLIM ENTITYSL ENTITY ENTITYE ENTITYID ENTITYSQ ENTITYDQ ENTITYLC COMDASH2 COMSEEKE COMENDD2 COMENDCL "
             "CDATA CDATA1 CDATA2 CDATA3 EXIT",
    "action": "Return ReturnWord ReturnContent ReturnIdentifier ReturnSQString ReturnDQString ExpectIdentifierXML ExpectIdentifierCDATA ReturnEOF",
    "char": "Undef EndOfText EndOfLine Cntrl Space Amp Lt Equal Gt Slash Dash Exclam Questm Sq Dq Osb Csb Any",
    "operation": "Content OpenTag CloseTag Attribute ThisAttributeValue AttributeValue ContentStart",
    "cause": "Unknown DimOutOfRange StateNumbersNotAscending InvalidParamState InvalidParamChar DuplicateStateTransition InvalidState IllegalParam IllegalAttributeName OutOfMem ArrayBoundsReadWrite "
             "NotAllowedOperation FileReadError IllegalXmlHeader InvalidTagOffset CorruptTagStack CodePageIndexNotSupported",
}
NAMES["causecp"] = NAMES["causeas"] = NAMES["cause"]


def stmop(r, n):
    t = r.choice([0, 1, n - 1, n, n + 1, 62, 63, 64, 65, -1, r.randint(0, 63), r.randint(0, 63), r.randint(0, 63)])
    c = lambda: r.choice([r.randint(0, 17)] * 7 + [18])
    x = r.random()
    if x < .14:
        return ("sta", r.choice([n] * 6 + [n + 1, n - 1, -1]))
    if x < .5:
        return ("tra", t) + tuple(c() for _ in range(r.choice([1, 1, 2, 3])))
    if x < .6:
        return ("slf", c())
    if x < .65:
        return ("oth", t)
    if x < .72:
        return ("act", r.randint(0, 40)) + ((r.randint(0, 200),) if r.random() < .5 else ())
    if x < .79:
        return ("mis", r.randint(0, 40))
    if x < .86:
        return ("fal", t)
    return ("get", r.choice([0, n - 1, n, n, n + 1, -1, 63, 64, 65, r.randint(0, 63)]))


def s11(rep):
    r = rng("s11")
    hp, p = {}, {"map": 0, "null": 0}
    out = []
    for h in script.tour(rep, "StmTour"):
        if quick() and len(h["h"]) > 3 and r.random() < .9:
            continue
        n = len([o for o in h["h"] if o[0] == "sta"])
        out.append(Script("stm", hp, p, script.plain([tuple(o) for o in h["h"]], [("get", k) for k in range(-1, n + 2)])))
    for _ in range(scale(600, 8000)):
        ops, n = [], 0
        for _ in range(r.choice([5, 20, 60, 120])):
            o = stmop(r, n)
            ops.append(o)
            if o[0] == "sta" and o[1] == n and n < 64:
                n += 1
        out.append(Script("stm", hp, p, script.plain(ops, [("get", k) for k in range(-1, n + 2)])))
    # all states defined
    for _ in range(scale(6, 40)):
        ops = []
        for k in range(66):
            ops.append(("sta", k))
            for _ in range(r.choice([0, 1, 3])):
                o = stmop(r, k + 1)
                if o[0] != "sta":
                    ops.append(o)
            ops.append(("get", k))
        out.append(Script("stm", hp, p, script.plain(ops, [("get", k) for k in range(-1, 66)])))
    # copies of state machines
    for _ in range(scale(60, 600)):
        ops, n = [], 0
        for _ in range(r.choice([10, 30])):
            o = stmop(r, n)
            ops.append(o)
            if o[0] == "sta" and o[1] == n and n < 64:
                n += 1
        out.append(Script("stm", hp, p, script.weave(r, ops, [("sta", n), ("tra", 1, 2), ("oth", 0), ("mis", 3)], [("get", k) for k in range(0, n + 1)])))
    # names
    out.append(Script("stm", hp, p, script.plain([("nam", k.encode(), x.encode()) for k, v in NAMES.items() for x in v.split()], [])))
    script.judge(rep, out, "StmTrace", "definitions of state machines")
    out = []
    for _ in range(scale(150, 1500)):
        size, null = r.choice([(256, 0), (128, 7)])
        ops = []
        for _ in range(r.choice([1, 5, 20])):
            a, b = r.choice([0, 1, size - 1, size // 2, r.randrange(size)]), r.choice([0, size - 1, r.randrange(size)])
            v = r.choice([0, 1, 7, -1, 255, 256, 70000])
            ops.append(r.choice([("one", a, v), ("rng", a, b, v), ("rng", min(a, b), max(a, b), v), ("two", a, v, b, 3)]))
        out.append(Script("cmap" if size == 256 else "cmap7", hp, {"map": size, "null": null}, script.plain(ops, [("get", k) for k in range(size)])))
    script.judge(rep, out, "StmTrace", "maps of bytes")
