"""Generators of documents (lists of code points)."""
from .core import rng

O = lambda s: [ord(c) for c in s]
WS = [32, 9, 10, 13]
UNDEF = [5, 128, 0x85, 0xA0, 0xA7, 0xE9, 0xFF, 0x100, 0x104, 0x20AC, 0x7FF, 0x800, 0x2D8, 0x1E02, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE]
WIDE = [0x10000, 0x1F600, 0x10FFFF]
WIDER = [0x110000, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFE]
NAMECH = O("abcxyzABZ019_:.-") + [0xE9, 0x20AC, 127, 37, 59, 35]
MARK = O("<>/=!?-'\"[]&;#x") + [32, 10, 13, 97, 98]
ENTNAMES = [("ouml", 246), ("euro", 0x20AC), ("smile", 0x1F600), ("a", 0x61), ("ampx", 0x3C), ("lt2", 13),
            ("quo", 0x27), ("abcdefghijklmno", 0x100), ("nbs", 0xA0), ("Amp", 0x26), ("x41", 0x42), ("am", 0x4D)]
PRE = ["quot", "amp", "apos", "lt", "gt", "nbsp"]


class Gen:
    """maxcp: largest character used; ents: references to user entities allowed; bad: malformed references too"""

    def __init__(self, r, maxcp=0x10FFFF, ents=False, eolheavy=False, undefent=True):
        self.r = r
        self.maxcp = maxcp
        self.ents = ents
        self.eolheavy = eolheavy
        self.undefent = undefent
        self.extra = [c for c in UNDEF + WIDE + WIDER if c <= maxcp]

    def ws(self, lo=0, hi=2):
        return [self.r.choice(WS) for _ in range(self.r.randint(lo, hi))]

    def name(self):
        r = self.r
        n = r.choice([1, 1, 1, 2, 3, 6])
        return [r.choice([c for c in NAMECH if c <= self.maxcp] + ([r.choice(self.extra)] if r.random() < .2 and self.extra else [97])) for _ in range(n)]

    def ref(self):
        r = self.r
        k = r.randint(0, 11)
        if k <= 2:
            return O("&%s;" % r.choice(PRE))
        if k == 3 and self.ents:
            return O("&%s;" % r.choice(ENTNAMES)[0])
        if k <= 5:
            v = r.choice([9, 10, 13, 32, 38, 60, 65, 127, 128, 255, 256, 0x20AC, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x7FFFFFFE, r.randint(1, 0x10FFFF)])
            if 0xD800 <= v < 0xE000:
                v = 65
            s = r.choice(["&#%d;", "&#x%x;", "&#x%X;", "&#%05d;", "&#x%08x;", "&#x%016x;", "&#%016d;", "&#x%017x;"]) % v
            return O(s)
        if k == 6:
            return O(r.choice(["&", "&&", "&;", "& ", "&#", "&#x", "&#;", "&#x;", "&#xg;", "&#12a;", "&#4294967296;", "&#x123456789;", "&#99999999999999999;",
                               "&#-1;", "&#X41;", "&abcdefghijklmnop;", "&abcdefghijklmnopqrst", "&a b;", "&amp", "&lt", "&gt&lt;", "&amp&amp;", "&#65", "&#x41", "&am\u00e9p;",
                               "&#65&#66;", "&#x41&lt;", "&a-b;", "&a=b;", "&a'b;", "&#x4\u00e9;", "&#1\n2;", "&amp ;", "&#xffffffffffffffff;", "&x&y", "&abcdefghijklmno"]))
        if k == 7 and self.undefent and r.random() < .5:
            return O(r.choice(["&unknown;", "&abcdefghijklmno;", "&am;", "&ampe;", "&;", "&quo;", "&x;", "&AMP;", "&l;"]))
        return O("&%s;" % r.choice(PRE))

    def text(self, stop, lo=0, hi=8):
        """text without the characters in stop"""
        r = self.r
        out = []
        for _ in range(r.randint(lo, hi)):
            k = r.random()
            if k < .18:
                out += self.ref()
            elif k < (.55 if self.eolheavy else .3):
                out += [r.choice([10, 13, 13, 10, 32, 9])]
            elif k < .4:
                out += [r.choice(self.extra)] if self.extra else [97]
            elif k < .55:
                c = r.choice(MARK)
                if c == 38:
                    out += self.ref()
                elif c != 60:
                    out.append(c)
            elif k < .58:
                out.append(r.choice([1, 2, 7, 8, 11, 12, 31, 127]))
            else:
                out.append(r.choice(NAMECH[:12]))
        return [c for c in out if c not in stop and c <= self.maxcp]

    def attr(self):
        r = self.r
        a = self.ws(1, 2) + self.name() + self.ws(0, 1) + [61] + self.ws(0, 1)
        k = r.random()
        if k < .45:
            return a + [34] + self.text((34, 60)) + [34]
        if k < .8:
            return a + [39] + self.text((39, 60)) + [39]
        return a + self.name()

    def misc(self):
        r = self.r
        k = r.randint(0, 4)
        t = self.text((60,), 0, 6)
        if k == 0:
            return O("<!--") + t + r.choice([[], [45], O("-->")[:1] + [97], [45, 45, 97]]) + r.choice([O("-->"), O("--->"), O("---->")])
        if k == 1:
            return O("<?") + self.name() + t + r.choice([[], [63], [63, 97]]) + O("?>")
        if k == 2:
            return O("<![CDATA[") + t + r.choice([[], [93], [93, 93], [93, 93, 93], [93, 97], [93, 93, 97], [62]]) + O("]]>")
        if k == 3:
            return O("<!") + self.name() + self.docparts() + [62]
        return O("<!DOCTYPE ") + self.name() + self.ws() + [91] + self.text((93,), 0, 6) + [93] + self.ws() + [62]

    def docparts(self):
        r = self.r
        out = []
        for _ in range(r.randint(0, 3)):
            out += self.ws(1, 2)
            k = r.random()
            if k < .4:
                out += self.name()
            elif k < .7:
                out += [34] + self.text((34, 60)) + [34]
            else:
                out += [39] + self.text((39, 60)) + [39]
        return out + self.ws()

    def element(self, depth):
        r = self.r
        nm = self.name()
        out = [60] + (self.ws(0, 1) if r.random() < .1 else []) + nm
        at = r.choice([0, 0, 1, 2])
        for _ in range(at):
            out += self.attr()
        if r.random() < .3:
            return out + self.ws() + [47] + (self.ws(0, 1)) + [62]
        out += self.ws() + [62]
        for _ in range(r.randint(0, 3)):
            k = r.random()
            if k < .45 and depth > 0:
                out += self.element(depth - 1)
            elif k < .85:
                out += self.text((60,))
            else:
                out += self.misc()
        return out + [60] + (self.ws(0, 1) if r.random() < .1 else []) + [47] + nm + self.ws(0, 1) + [62]

    def header(self):
        r = self.r
        out = O("<?xml")
        for _ in range(r.randint(0, 2)):
            out += self.attr()
        return out + self.ws(0, 1) + O("?") + (self.ws(0, 1)) + O(">")

    def doc(self, depth=2):
        r = self.r
        out = self.ws(0, 1)
        if r.random() < .5:
            out += self.header()
        out += self.ws()
        if r.random() < .3:
            out += O("<!DOCTYPE") + self.docparts() + [62] + self.ws()
        out += self.element(depth)
        out += self.ws()
        if r.random() < .15:
            out += self.misc()
        return out

    def mutate(self, d):
        r = self.r
        d = list(d)
        for _ in range(r.choice([1, 1, 2, 3])):
            if not d:
                break
            i = r.randrange(len(d))
            k = r.randint(0, 4)
            if k == 0:
                del d[i]
            elif k == 1:
                d.insert(i, r.choice(MARK))
            elif k == 2:
                d[i] = r.choice(MARK + self.extra)
            elif k == 3:
                d = d[:i]
            else:
                j = r.randrange(len(d))
                d = d[:i] + d[min(i, j):max(i, j)] + d[i:]
        return [c for c in d if c != 0 and c <= self.maxcp]

    def soup(self):
        r = self.r
        return [r.choice(MARK + [r.choice(NAMECH)]) for _ in range(r.randint(0, 14))]


def pool(name, n, maxcp=0x10FFFF, ents=False, wellformed=.5, eolheavy=False, maxlen=140, undefent=True):
    """n documents: well formed ones, damaged ones, markup soup"""
    r = rng("docs/" + name)
    g = Gen(r, maxcp, ents, eolheavy, undefent)
    out = []
    while len(out) < n:
        d = g.doc(r.choice([0, 1, 2]))
        k = r.random()
        if k > wellformed:
            d = g.mutate(d) if k < wellformed + (1 - wellformed) * .8 else [60, 97, 62][:r.randint(0, 3)] + g.soup()
        if len(d) <= maxlen:
            out.append(d)
    return out
