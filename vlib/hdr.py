"""The XML header parser (H01, H02, part of M02)."""
import itertools
from .core import *
from . import script, gen
from .script import Script
from .misc import chunks_of

OBS = [("enc",), ("err",), ("cnt",), ("src",)]
P = {"x": 0}


def designs(rep):
    docs = [bytes(d) for d in script.tour(rep, "HeaderModel", "DOC")]
    if not quick():
        script.tour(rep, "HeaderModel", "DOC", cfg="HeaderModelBig.cfg")
    return docs, [bytes(d) for d in script.tour(rep, "HeaderTour", "DOC")]


def wide(d, k, be):
    return b"".join((bytes(k - 1) + bytes([c]) if be else bytes([c]) + bytes(k - 1)) for c in d)


def mutate(r, d):
    d = bytearray(d)
    for _ in range(r.choice([1, 1, 2, 3])):
        x = r.random()
        k = r.randrange(len(d) + 1)
        if x < .4:
            d[k:k] = bytes([r.choice([0, 0, 32, 10, 60, 62, 63, 61, 34, 39, 97, 95, 49, 200, r.randint(0, 255)])])
        elif x < .6:
            del d[k:k + r.randint(1, 3)]
        elif x < .8:
            d[k:k] = bytes(r.randint(1, 5))
        elif d:
            d[k - 1] = r.choice([0, 32, 63, 62, 61, 34, 39, 65, 122, r.randint(0, 255)])
    return bytes(d)


def pool(r, base, tour, n):
    out = list(tour) + list(base)
    for _ in range(n):
        d = r.choice(base)
        x = r.random()
        if x < .3:
            k, be = r.choice([2, 4, 3]), r.random() < .5
            d = wide(d, k, be)
        if x < .15 or x > .5:
            d = mutate(r, d)
        if r.random() < .3:
            d = d + r.choice([b">", b"?><a/>", b" x", bytes(4), bytes(5) + b"<"])
        out.append(d)
    for c in range(256):
        for pre in (b"", b"<", b"<?", b"<?xml", b"<?xml ", b"<?xml e", b"<?xml encoding", b"<?xml encoding ", b"<?xml encoding=", b"<?xml encoding='", b"<?xml encoding='u'", b"<?xml encoding=\"u\" "):
            out.append(pre + bytes([c]))
    return out


LONG = [30, 31, 32, 33, 62, 63, 64, 65, 66, 126, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 1024, 1025]


def large(r):
    """values, names and runs of white space, null characters and other characters of many lengths"""
    out = []
    for n in LONG + ([] if quick() else [100, 200, 300, 2048, 2049, 4097]):
        v = bytes(r.choice(b"abcXYZ019-_. :") for _ in range(n))
        for d in [b"<?xml encoding='" + v + b"'?>", b'<?xml version="1.0" encoding="' + v + b'"?>', b"<?xml version='" + v + b"' encoding=\"utf-8\" standalone='" + v + b"'?>",
                  b"<?xml encoding='u' version=\"" + v + b'"', b"<?xml " + b"a" * n + b"='1'?>", b"<?xml encoding" + b"g" * n + b"='1'?>", b"<?" + b"x" * n + b" encoding='u'?>", b"<" + b"r" * n + b">",
                  b" " * n + b"<" + b"\n" * n + b"?xml" + b"\t" * n + b"encoding" + b"\r" * n + b"=" + b" " * n + b"'a'" + b" " * n + b"?>",
                  b"<?xml encoding='" + v[:n // 2] + b"' encoding='" + v + b"' encoding=\"" + v[1:] + b"\"?>"]:
            out.append(wide(d, r.choice([2, 4]), r.random() < .5) if r.random() < .3 and len(d) < 700 else d)
    return out


def sequences(r):
    """every sequence of up to three attributes (also the same again) with different or empty values in both quotes"""
    out = []
    for n in (1, 2, 3):
        for names in itertools.product((b"encoding", b"version", b"standalone"), repeat=n):
            for q in itertools.product((b"'", b'"'), repeat=n):
                for e in ([None] + list(range(n)) if quick() and n == 3 else [None, -1] + list(range(n))):
                    sp = r.choice([b"", b" ", b"\n"])
                    out.append(b"<?xml" + b"".join(b" " + a + r.choice([b"=", b" = "]) + k + (b"" if e in (i, -1) else b"v%d" % i) + k for i, (a, k) in enumerate(zip(names, q))) + sp + b"?>")
    return out


def chunked(r, d, obs=.5):
    """put in chunks, parse after each until the final result, with the observations anywhere"""
    ops = []
    style = r.random()
    sizes = [1] * len(d) if style < .2 else [len(d)] if style < .3 else chunks_of(r, len(d))
    k = 0
    for n in sizes:
        ops.append(("put", d[k:k + n]))
        k += n
        if r.random() < .8:
            ops.append(("prs",))
            if r.random() < .1:
                ops.append(("prs",))
            if r.random() < obs:
                ops += r.sample(OBS, r.randint(1, 4))
    ops.append(("prs",))
    return ops


def h01(rep):
    r = rng("h01")
    base, tour = designs(rep)
    out = []
    for d in large(r) + sequences(r) + pool(r, base, tour, scale(4000, 60000)):
        out.append(Script("hdr", {}, P, script.plain([("put", d), ("prs",)], OBS)))
    script.judge(rep, out, "HeaderTrace", "header parser")


def h02(rep):
    r = rng("h02")
    base, tour = designs(rep)
    out = []
    ds = pool(r, base, tour, scale(3000, 40000))
    for d in r.sample(ds, min(len(ds), scale(7000, 60000))) + large(r) + sequences(r):
        ops = chunked(r, d)
        if r.random() < .5:      # what is put after the final result is kept too
            ops += [("put", b"more"), ("src",)]
        if r.random() < .4:
            ops += [("clr",)] + OBS + chunked(r, r.choice(ds))
        out.append(Script("hdr", {}, P, script.plain(ops, OBS)))
    script.judge(rep, out, "HeaderTrace", "header parser in chunks")


def copies(rep, r):
    base, tour = designs(rep)
    out = []
    for d in r.sample(base, scale(700, 2000)) + r.sample(tour, scale(500, 2000)):
        out.append(Script("hdr", {}, P, script.weave(r, chunked(r, d), [("put", b" "), ("put", b"<?xml "), ("prs",), ("clr",), ("put", bytes(4))], OBS, p=.25)))
    script.judge(rep, out, "HeaderTrace", "copies of the header parser")
