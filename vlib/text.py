"""Character set encodings and the text scanner (T01..T04)."""
import json, os
from .core import *
from . import enc, gen, script
from .script import Script
from .misc import chunks_of

ISOS = ["ISO%d" % k for k in range(1, 10)]
ALL = enc.ENCS + ISOS
MARK = {"UTF8": None}


def cls(e):
    return "IsoLatin" if e.startswith("ISO") else e


def blocks(e, lo, hi, step, size):
    out = []
    a = lo
    while a <= hi:
        b = min(hi, a + (size - 1) * step)
        b = a + ((b - a) // step) * step
        out.append((a, b, step))
        a = b + step
    return out


def legal(a, b):
    """no surrogates"""
    return a >= 0 and not (a < 0xE000 and b >= 0xD800)


def encode_blocks(rep, plan, label):
    """plan: [(encoding, from, to, step)] -> the characters are printed and what can be decoded is decoded again"""
    h = script.harness()
    l1 = ["ops enc%s page=%d new,0;prn,0,%d,%d,%d" % (cls(e), enc.iso_page(e), a, b, s) for e, a, b, s in plan]
    a1 = h.run(l1)
    recs, l2 = [], []
    for (e, a, b, s), x in zip(plan, a1):
        rec = {"enc": e, "from": a, "to": b, "step": s, "out": [-1], "decode": False, "dec": []}
        recs.append(rec)
        if x.startswith("ok;x"):
            rec["out"] = list(bytes.fromhex(x[4:]))
        cps = range(a, b + 1, s)
        data, n = b"", 0
        for c in cps:
            q = enc.char(e, c)
            if q is not None:
                data += q
                n += 1
        if n and e != "UTF8" or n and b < 0x7FFFFFFF:
            rec["decode"] = True
            # the bytes are decoded by a text scanner on a string iterator
            l2.append((len(recs) - 1, "ops textC%s page=%d,doc=%s new,0;%s" % (cls(e), enc.iso_page(e), data.hex(), ";".join(["pst,0"] * n))))
    a2 = h.run([l for _, l in l2])
    rep.execs += len(l1) + len(l2)
    for (k, _), x in zip(l2, a2):
        v = x.split(";")
        try:
            recs[k]["dec"] = [int(y) if int(y) < (1 << 31) else -1 for y in v[1:]]
        except ValueError:
            recs[k]["dec"] = [-2]
    for r, l in zip(recs, l1):
        r["req"] = l
    rep.sample({"request": l1[0], "bytes": recs[0]["out"][:40], "decoded": recs[0]["dec"][:10]})
    rep.info["characters"] = rep.info.get("characters", 0) + sum(len(range(a, b + 1, s)) for _, a, b, s in plan)
    for k in range(0, len(recs), 4000):
        validate(rep, "EncodeTrace", recs[k:k + 4000], label)
        if rep.violations:
            return


POINTS = [0x7E, 0xFE, 0x7FE, 0xFFE, 0xD7F0, 0xE000, 0xFFF0, 0x10FFF8, 0x1FFFF8, 0x200000, 0x3FFFFF8, 0x4000000, 0x7FFFFFF0]


def t01(rep):
    design_charset(rep)
    r = rng("t01")
    plan = []
    for e in ALL:
        plan += [(e,) + b for b in blocks(e, 0, 0x2FF, 1, 128)]
        for p in POINTS:
            lo, hi = p, min(p + 15, 0x7FFFFFFE)
            if e == "UTF8" or e.startswith("UCS4") or hi <= 0x200000 or True:
                plan.append((e, lo, hi, 1))
        if quick():
            if not e.startswith("ISO"):
                plan += [(e,) + b for b in blocks(e, 0x300, 0xD7FF, 1, 128)] + [(e,) + b for b in blocks(e, 0xE000, 0xFFFF, 1, 128)]
                a = r.randint(1, 60)
                plan += [(e,) + b for b in blocks(e, 0x10000 + a, 0x10FFFF, 61, 128)]
            for _ in range(20):
                a = r.randint(0x10000, 0x10F000)
                plan.append((e, a, a + 63 * 31, 31))
        else:
            plan += [(e,) + b for b in blocks(e, 0x300, 0xD7FF, 1, 128)] + [(e,) + b for b in blocks(e, 0xE000, 0xFFFF, 1, 128)]
            plan += [(e,) + b for b in blocks(e, 0x10000, 0x10FFFF, 13, 128)]
        for _ in range(scale(6, 60)):
            a = r.randint(0x110000, 0x7FFF0000)
            plan.append((e, a, a + 31 * 997, 997))
    plan = [x for x in plan if legal(x[1], x[2])]
    encode_blocks(rep, plan, "encoding")
    if not rep.violations:
        encoding_objects(rep, r, enc.ENCS + ["ISO%d" % r.randint(1, 9)], scale(40, 600), "objects of encodings")


def encoding_objects(rep, r, encs, n, label):
    """scripts on objects of encodings: printing, comparing, copying, changing the page, references in buffers of any size"""
    scs = []
    for e in encs:
        iso = e.startswith("ISO")
        pool = sorted(enc.isomap(enc.iso_page(e))[1]) if iso else []
        pool += [0x41, 0x7F, 0x80, 0xA0, 0xFF, 0x100, 0x7FF, 0x800, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x7FFFFFFE]

        def one(k, pages):
            x = r.random()
            if x < .45:
                return ("chr", k, r.choice(pool) if r.random() < .7 else r.choice(sorted(enc.isomap(r.choice(pages))[1])))
            if x < .6:
                return ("eq", k, r.choice(pages))
            if x < .7:
                c = r.choice(pool + [0, 1, 15, 16, 255, 4095, 4096, 0xFFFFF])
                l = 4 + len("%x" % c)
                return ("ref", k, c, r.choice([1, 2, 3, l - 1, l, l + 1, l + 2, 32]))
            if x < .75:
                return ("unit", k)
            return ("pg", k, r.choice(pages) if not iso or r.random() < .8 else r.choice([0, 10, 11, 256, 257, 65537, 1 << 30]))
        pages = list(range(1, 10))
        # every page is compared with every other
        scs.append(Script("enc" + cls(e), {"page": enc.iso_page(e)}, {"cls": cls(e), "page": enc.iso_page(e), "names": ISOS},
                          [("eq", 0, k) for k in pages] + [x for k in pages for x in (("cp", 1, 0), ("pg", 1, k), ("dif", 0, 1), ("dif", 1, 0))]))
        for _ in range(n):
            ops, live = [], {0}
            for _ in range(r.randint(5, 25)):
                k = r.choice(sorted(live))
                if r.random() < .3:
                    t = r.randrange(4)
                    if t != k:
                        ops.append((r.choice(["cp", "as"]) if t in live else "cp", t, k))
                        live.add(t)
                        if r.random() < .3 and len(live) > 1:
                            ops.append(("rm", k))
                            live.discard(k)
                elif len(live) > 1 and r.random() < .2:
                    ops.append(("dif", k, r.choice(sorted(live))))
                else:
                    ops.append(one(k, pages if r.random() < .5 else [1, enc.iso_page(e) or 2]))
            scs.append(Script("enc" + cls(e), {"page": enc.iso_page(e) if r.random() < .9 else 0}, {"cls": cls(e), "page": 0, "names": ISOS}, ops))
            scs[-1].p["page"] = scs[-1].hp["page"]
    script.judge(rep, scs, "EncodingTrace", label, EXTRA)


def page_documents(rep, r):
    """documents in every code page, by every way to make a scanner: names, values and texts of characters of the page, with references between them"""
    from . import scan
    cases = []
    for p in range(1, 10):
        cs = [c for c in enc.isomap(p)[1] if c > 160]
        r.shuffle(cs)
        cs += [r.choice(cs) for _ in range(-len(cs) % 16)]
        for k in range(0, len(cs), 16):
            w = cs[k:k + 16]
            ref = gen.O("&%s;" % r.choice([n for n, _ in gen.ENTNAMES]))
            for ents in (False, True):
                d = [60] + w[:4] + gen.O(" a='") + w[4:8] + gen.O("&lt;'>") + w[8:12] + (ref if ents else gen.O("&amp;")) + w[12:] + gen.O("</") + w[:4] + [62]
                for it, mode in (("P", "n"), ("C", "n"), ("S", "nk"), ("I", "n"), ("S", "dn")):
                    if "d" in mode and ents:
                        continue
                    scan.add(cases, d, inp="ISO%d" % p, out=r.choice(["UTF8", "UTF8", "UCS4LE", "UTF16BE"]) if it == "S" else "UTF8", it=it, mode=mode, ents=ents, cuts=[r.randint(1, 5) for _ in range(40)] if "k" in mode else None)
    scan.judge(rep, cases, "documents in the code pages")


def design_charset(rep):
    r = tlc("CharsetModel")
    if not r.ok:
        raise CheckError("specification Charset inconsistent: %s\n%s" % (r.violated, r.state[:2000]))
    rep.add_tlc(r)
    rep.info["design_models"] = {"CharsetModel": {"states": r.distinct}}


def t03(rep):
    design_charset(rep)
    plan = []
    for e in ISOS:
        plan += [(e,) + b for b in blocks(e, 0, 0xD7FF, 1, 128)] + [(e,) + b for b in blocks(e, 0xE000, 0xFFFF, 1, 128)]
        plan += [(e,) + b for b in blocks(e, 0x10000, 0x10FFFF, scale(1021, 61), 64)]
    encode_blocks(rep, plan, "code pages")
    # every byte of every page, by every way to make a scanner, and pages that do not exist
    scs = []
    for e in ISOS:
        pg = enc.iso_page(e)
        data = bytes(range(0, 256))
        for it in "PCIS":
            for init in (0, 1):
                ops = []
                for _ in data:
                    ops += [("chr", 0), ("asc", 0), ("inc", 0)]
                scs.append(text_script(e, data, it, ops, init=init))
    data = bytes(range(0, 256))
    scs.append(Script("textCIsoLatin", {"doc": data, "page": 0, "init": 2}, tparams("ISO1", data), [("pst", 0)] * 256))
    script.judge(rep, scs, "TextTrace", "bytes of the code pages", EXTRA)
    if not rep.violations:
        encoding_objects(rep, rng("t03"), ISOS, scale(40, 600), "objects of code pages")
    if not rep.violations:
        page_documents(rep, rng("t03d"))
    bad = [0, 10, 11, 15, 16, 100, 255, 256, 257, 65537, 2147483647, 4294967295]
    h = script.harness()
    for b in bad:
        rep.execs += 1
        l = "ops encIsoLatin %s new,0" % ("page=%d" % b if b else "zero=1")
        a = h.run([l])[0]
        if a != "EXC/CodePageIndexNotSupported/CodePageIndexNotSupported":
            rep.violation("code page index %d is not rejected with the exception CodePageIndexNotSupported: %s" % (b, a), {"request": l, "answer": a})
            return


EXTRA = None


def tparams(e, data, chunks=None):
    return {"enc": e, "bytes": list(data), "chunks": chunks or [], "pages": enc.iso_page(e), "tonames": ISOS}


def text_script(e, data, it, ops, init=0, chunks=None, pad=400, **kw):
    hp = {"doc": data, "page": enc.iso_page(e), "init": init, "pad": pad}
    if chunks:
        hp.update(ctor=1, cuts=chunks)
    hp.update(kw)
    return Script("text%s%s" % (it, cls(e)), hp, tparams(e, data, chunks), ops)


def schedule(r, e, nchars, style, copies, chunked):
    ops = []
    iso = e.startswith("ISO")

    def ask(s):
        x = r.choice(["chr", "asc", "ctl", "cpy", "drf", "pos", "chr", "ctl"])
        if x == "cpy" and iso and r.random() < .5:
            return ("cpy", s, r.randint(1, 9))
        return (x, s)
    slot = 0
    for _ in range(nchars):
        k = r.choice([0, 0, 1, 2, 3]) if style == "mix" else {"none": 0, "one": 1, "all": 8}[style]
        for _ in range(k):
            ops.append(ask(slot))
        if copies and r.random() < .4:
            t = r.choice([x for x in range(4) if x != slot])
            ops.append((r.choice(["cp", "cp", "as"]) if any(o[0] == "cp" and o[1] == t for o in ops) else "cp", t, slot))
            if r.random() < .5:
                # the other one runs ahead, or is destroyed
                other = slot
                slot = t if r.random() < .5 else slot
                other = t if slot != t else other
                if r.random() < .3:
                    ops.append(("rm", other))
                    ops.append(("cp", other, slot))
                else:
                    for _ in range(r.randint(1, 3)):
                        ops += [ask(other), ("inc", other)]
        ops.append((r.choice(["skp", "inc", "inc"] if chunked else ["skp", "inc", "inc", "pst"]), slot))
    return ops


def valid_texts(r, e, n, maxlen):
    if e.startswith("ISO"):
        pool = sorted(enc.isomap(enc.iso_page(e))[1])
    else:
        lim = {"UTF8": 0x7FFFFFFE, "UCS2BE": 0xFFFF, "UCS2LE": 0xFFFF, "UTF16BE": 0x10FFFF, "UTF16LE": 0x10FFFF}.get(e, 0x7FFFFFFE)
        pool = [c for c in [0, 1, 5, 9, 10, 13, 32, 33, 34, 38, 39, 45, 47, 60, 61, 62, 63, 65, 91, 93, 126, 127, 128, 160, 233, 255, 256, 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF,
                            0x10000, 0x103FF, 0x10400, 0x10FFFF, 0x110000, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFE, 0x0D00, 0x3C00, 0x3C3C, 0x0A0D, 0x2600] if c <= lim]
    for _ in range(n):
        yield [r.choice(pool) if r.random() < .8 else r.choice(pool[:20]) for _ in range(r.randint(1, maxlen))]


def nopst(ops):
    """the value of a postincrement shares its input (stream, chunks) with the original"""
    return [(("inc",) + o[1:] if o[0] == "pst" else o) for o in ops]


def run_chunked(rep, r, cases, label):
    """scripts on chunked sources: an operation answered with 'eom' is repeated after the next put.  The put operations
    are inserted iteratively by running the script (the library decides where it suspends; the specification judges)."""
    h = script.harness()
    todo = list(range(len(cases)))
    for _ in range(400):
        if not todo:
            break
        ans = h.run([cases[k].line() for k in todo])
        nxt = []
        for k, a in zip(todo, ans):
            res = a.split(";")
            if len(res) != len(cases[k].ops):
                continue
            j = next((j for j, x in enumerate(res) if x == "eom" and (j + 1 >= len(res) or cases[k].ops[j + 1][0] != "put")), None)
            if j is not None:
                o = cases[k].ops[j]
                cases[k].ops[j + 1:j + 1] = [("put", o[1]), o]
                nxt.append(k)
        todo = nxt
    script.judge(rep, cases, "TextTrace", label, EXTRA)


def t02(rep):
    design_charset(rep)
    r = rng("t02")
    scs, chunked = [], []
    for e in ALL:
        per = scale(40, 300) if not e.startswith("ISO") else scale(14, 120)
        for t in valid_texts(r, e, per, 12):
            data = enc.encode(e, t)[0]
            for it in r.sample("PCIS", 2):
                style = r.choice(["mix", "mix", "none", "one", "all"])
                kw = {}
                copies = r.random() < .4
                if it == "I":
                    kw = dict(bufsize=r.choice([1, 2, 3, 5, 8192]), ctor=r.choice([0, 1]))
                    copies = False
                elif it == "C":
                    kw = dict(ctor=r.choice([0, 2]))
                scs.append(text_script(e, data, it, schedule(r, e, len(t) + 2, style, copies, it == "I"), init=r.choice([0, 0, 1] + ([2] if not e.startswith("ISO") else [])), **kw))
            c = r.choice([None, [1] * len(data), [0, 1] * len(data)]) or chunks_of(r, len(data))
            if sum(c) < len(data):
                c = c + [len(data) - sum(c)]
            chunked.append(text_script(e, data, "S", schedule(r, e, len(t) + 2, r.choice(["mix", "mix", "none", "one"]), False, True), init=r.choice([0, 1]), chunks=c))
    script.judge(rep, scs, "TextTrace", "accessor schedules", EXTRA)
    run_chunked(rep, r, chunked, "accessor schedules on chunks")


def t04(rep):
    design_charset(rep)
    r = rng("t04")
    B8 = [0, 1, 0x41, 0x7F, 0x80, 0xBF, 0xC0, 0xC3, 0xDF, 0xE2, 0xEF, 0xF0, 0xF7, 0xF8, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF]
    B16 = [0, 0x20, 0x41, 0xD7, 0xD8, 0xDB, 0xDC, 0xDF, 0xE0, 0xFF]
    scs, chunked = [], []

    def emit(e, data, rich):
        n = len(data) + 3
        for it in (r.sample("CIS", 2) if rich else [r.choice("CIS")]):
            ops = []
            for _ in range(n):
                x = r.random()
                if x < .4:
                    ops += [("chr", 0), ("skp", 0)]
                elif x < .55:
                    ops += [("skp", 0)]
                elif x < .7:
                    ops += [("asc", 0), ("ctl", 0), ("chr", 0), ("cpy", 0), ("skp", 0)]
                elif x < .85:
                    ops += [("pst", 0)]
                else:
                    ops += [("ctl", 0), ("pos", 0), ("inc", 0)]
            kw = dict(bufsize=r.choice([1, 2, 3, 8192])) if it == "I" else {}
            scs.append(text_script(e, data, it, nopst(ops) if it == "I" else ops, **kw))
        if rich and len(data):
            chunked.append(text_script(e, data, "S", nopst(ops), chunks=r.choice([[1] * len(data), chunks_of(r, len(data))])))
    # every byte value at every position of sequences of every length
    blocks = []
    for s0 in (b"\xc3\xa9", b"\xdf\xbf", b"\xe0\xa4\x84", b"\xe2\x82\xac", b"\xef\xbf\xbf", b"\xf0\x90\x90\x80", b"\xf4\x8f\xbf\xbf", b"\xf7\xbf\xbf\xbf",
               b"\xf8\x88\x80\x80\x80", b"\xfb\xbf\xbf\xbf\xbf", b"\xfc\x84\x80\x80\x80\x80", b"\xfd\xbf\xbf\xbf\xbf\xbe"):
        for k in range(len(s0)):
            blocks.append(("UTF8", [s0[:k] + bytes([v]) + s0[k + 1:] for v in range(256)], b"AB"))
    for be in (True, False):
        w = (lambda hi, lo: bytes([hi, lo])) if be else (lambda hi, lo: bytes([lo, hi]))
        e = "UTF16BE" if be else "UTF16LE"
        for lo in (0x00, 0x41, 0xFF):
            blocks.append((e, [w(v, lo) + w(0xDC, 0x37) for v in range(256)], w(0, 0x41)))
            blocks.append((e, [w(0xD8, 0x41) + w(v, lo) for v in range(256)], w(0, 0x41)))
            blocks.append((e, [w(0xDB, 0xFF) + w(v, lo) for v in range(256)], w(0, 0x41)))
    for e, parts, sep in blocks:
        for j in range(0, 256, 64):
            data = b"".join(q + sep for q in parts[j:j + 64])
            style = r.choice([["chr", "skp"], ["chr", "inc"], ["asc", "chr", "skp"], ["ctl", "chr", "skp"], ["cpy", "skp"]])
            n = len(data) if e == "UTF8" else len(data) // 2
            it = r.choice("PCS")
            scs.append(text_script(e, data, it, [(o, 0) for _ in range(n) for o in style]))
    for a in B8:
        for b in B8:
            emit("UTF8", bytes([a, b]), False)
            for c in (B8 if not quick() else r.sample(B8, 5)):
                emit("UTF8", bytes([a, b, c]), False)
    for e in ("UTF16BE", "UTF16LE"):
        for a in B16:
            for b in B16:
                for tail in (b"", b"\x41"):
                    w = bytes([a, 0x12, b, 0x34]) if e == "UTF16BE" else bytes([0x12, a, 0x34, b])
                    emit(e, w + tail, False)
                    emit(e, w[:3] + tail, False)
    for e in ALL:
        for _ in range(scale(40, 1200)):
            n = r.randint(0, 14)
            pool = B8 if not e.startswith("UTF16") else B16 + [0x12]
            emit(e, bytes(r.choice(pool) if r.random() < .7 else r.randint(0, 255) for _ in range(n)), True)
        for t in valid_texts(r, e, scale(15, 300), 5):      # cut off and damaged texts
            data = bytearray(enc.encode(e, t)[0])
            for _ in range(r.randint(0, 2)):
                data[r.randrange(len(data))] = r.choice(B8)
            emit(e, bytes(data[:r.randint(0, len(data))]), True)
    script.judge(rep, scs, "TextTrace", "malformed bytes", EXTRA)
    run_chunked(rep, r, chunked, "malformed bytes in chunks")
    probe_cptr(rep)


def probe_cptr(rep):
    """a char pointer on a null terminated string that ends inside of a character"""
    kf = known_findings()
    h = script.harness()
    bad = []
    for e, data in [("UTF8", b"a\xc3"), ("UTF8", b"a\xe2\x82"), ("UTF8", b"\xf0"), ("UTF16LE", b"a\0\x00\xd8"), ("UTF16BE", b"\xd8\x00")]:
        pad = enc.unit(e)
        n = 3
        l = "ops textP%s doc=%s,pad=%d new,0;%s" % (cls(e), data.hex(), pad, ";".join(["chr,0", "inc,0"] * n))
        rep.execs += 1
        a = h.run([l])[0]
        if a.startswith("CRASH"):
            bad.append((e, data.hex(), l, a))
    if bad:
        if ("T04", "cptrcut") in kf:
            rep.finding(kf[("T04", "cptrcut")])
        else:
            rep.violation("character pointer source reads beyond the terminator of a text cut off inside of a character (%s %s)" % bad[0][:2], {"probes": bad})
