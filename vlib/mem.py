"""Running out of memory, memory given back (M04)."""
from .core import *
from . import enc, script, path, prn, hdr, misc, pipe
from .script import Script

ENCS = ["IsoLatin", "UTF8", "UTF16LE"]
TUS = [("ops_main.cpp", ["MEM"]), ("ops_src.cpp", ["MEM"]), ("ops_misc.cpp", ["MEM"])]
for _e in ENCS:
    TUS += [("ops_prn.cpp", ["MEM", "VOUT=" + _e]), ("ops_path.cpp", ["MEM", "VATM=" + _e]), ("ops_pipe.cpp", ["MEM", "VATM=" + _e])]
_exe = None


def harness():
    global _exe
    if _exe is None:
        _exe = Harness(build("mem", TUS, ldflags=["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]))
    return _exe


class Mem(Script):
    def __init__(self, k, s):
        Script.__init__(self, s.kind, s.hp, {"k": k, "p": s.p}, s.ops, first=None)

    def record(self, ans):
        ops = self.ops
        self.ops = ops + [("end", 0)]
        r = Script.record(self, ans)
        self.ops = ops
        return r


def sites(r, base, n):
    """a script with refused allocations at random places"""
    out = []
    for _ in range(n):
        ops = list(base.ops)
        for _ in range(r.choice([1, 1, 2, 3])):
            at = r.randint(0, len(ops))
            ops.insert(at, ("arm", 0, r.choice([1, 1, 2, 3, 5, 8, r.randint(1, 40)])) + (("all",) if r.random() < .3 else ()))
            if ops[at][-1] == "all":
                ops.insert(min(len(ops), at + r.randint(1, 4)), ("arm", 0, 0))
            elif r.random() < .3:
                ops.insert(r.randint(at + 1, len(ops)), ("arm", 0, 0))
        out.append(Script(base.kind, base.hp, base.p, ops, first=None))
    return out


def one(r, k):
    """a script of objects of a kind, with copies"""
    if k == "stack":
        ops = [misc.stackop(r) for _ in range(r.choice([5, 12, 30]))]
        n = sum(o[0] == "psh" for o in ops)
        return Script("stack", {}, {"x": 0}, script.weave(r, ops + misc.SOBS + [("pop",), ("top",)] * min(n, 8), [("psh", b"abc"), ("psh", b"x" * 300), ("pop",), ("clr",)], misc.SOBS, p=.15))
    if k == "hdr":
        d = r.choice([b"<?xml version='1.0' encoding=\"isolatin-1 and more\" standalone='yes'?><a/>", b"<?xml encoding='utf-8'?>", b" " * 50 + b"<a>", b"<?xml vers='1'?>"])
        if r.random() < .3:
            d = hdr.wide(d, r.choice([2, 4]), r.random() < .5)
        return Script("hdr", {}, hdr.P, script.weave(r, hdr.chunked(r, d), [("put", b" "), ("put", b"<?xml " * 9), ("prs",), ("clr",)], hdr.OBS, p=.2))
    if k == "prn":
        app, io = r.choice(["ISO1", "UTF8", "UTF16LE"]), r.choice(["ISO1", "ISO9", "UTF8", "UTF16LE"])
        sub, h = prn.document(r, app, 4)
        return prn.prn_script(r, app, io, sub, script.weave(r, prn.to_ops(app, h), [("cls",), ("opn", prn.e(app, [120])), ("opn", prn.e(app, [120] * 300)), ("ext",)], prn.OBS, p=.2), outs="VB")     # a std::ostream turns a refused allocation into a state of its own
    if k == "path":
        e = r.choice(["ISO1", "UTF8", "UTF16LE"])
        nm = path.PLAIN if r.random() < .5 else path.Names(["a", "bb", "c" * 20], ["x", "y" * 9], ["", "1", "a b", "v" * 33])
        xs = [path.expr(r, nm) for _ in range(r.choice([1, 2, 4]))]
        ops = [c for n, x in enumerate(xs) for c in x.calls(e, n + 1)] + path.events(path.doc(r, nm, e=e, size=r.choice([8, 16])))
        if r.random() < .4:
            ops.insert(r.randint(0, len(xs)), ("add", path.expr(r, nm, text=True).text(r, .1).encode(), path.typ(40)))
        per = [("ev", path.OPEN, path.b(e, "a")), ("ev", path.CLOSE, path.b(e, "a")), ("ev", path.AN, path.b(e, "x")), ("def", b"d", b"t", path.b(e, "a"), b"o", b"=", path.typ(50))]
        kind = "pathUTF8-" + path.cls(e) if any(o[0] == "add" for o in ops) else r.choice(["pathP-", "pathD-"]) + path.cls(e)
        return path.scr(r, script.weave(r, ops, per, [], p=.15), e, kind=kind)
    if k == "pipe":
        inp, atm = r.choice(["ISO1", "UTF8", "UTF16LE"]), r.choice(["ISO1", "UTF8", "UTF16LE"])
        nm = pipe.names(inp)
        d = pipe.doc(r, nm, 4)
        if r.random() < .3:
            d += [60] + [97] * 40 + [62] + [98] * 300
        e = enc.encode(inp, d)
        if e is None:
            return None
        cuts = pipe.cutting(r, len(e[0])) if r.random() < .6 else None
        src = r.choice(["S", "S", "I", "C"]) if inp == "UTF8" else "S"
        return pipe.pipe(r, d, inp, atm, pipe.exprs(r, nm, atm, 2), src, cuts, head=src == "S" and r.random() < .3, weave=src != "I" and not cuts and r.random() < .6, hp={"ctor": 0} if src == "I" else None)
    if k == "src":
        kind = r.choice("IIIS")
        n = r.choice([3, 8, 30])
        hp, p = misc.source_params(r, kind, bytes(r.randint(0, 255) for _ in range(n)), chunked=True)
        if kind == "I":
            hp["ctor"] = 0     # a std::istream allocates by itself and turns that into a read failure
        shared = kind == "I" and not (hp["bufsize"] > n + 1 and "cuts" not in hp and hp["ctor"] == 0)
        return Script("src" + kind, hp, p, [o for o in misc.walk(r, kind, n, 25, shared, p["chunks"], p["open"]) if o[0] != "dif"])
    if k == "buf":
        size = r.choice([0, 1, 3, 16])
        return Script("buf", {"size": size, "fill": 0, "ctor": r.choice([0, 1, 2])}, {"size": size, "fill": 0},
                      script.weave(r, [misc.bufop(r, size) for _ in range(8)], [("clr",), ("psh", 1), ("app", b"1234567")], misc.BOBS))


def m04(rep):
    r = rng("m04")
    for k, n in [("stack", scale(250, 3000)), ("hdr", scale(250, 3000)), ("prn", scale(250, 4000)), ("path", scale(500, 8000)), ("pipe", scale(400, 5000)), ("src", scale(150, 2000)), ("buf", scale(150, 2000))]:
        base = [s for s in (one(r, k) for _ in range(n)) if s]
        out = []
        for s in base:
            if k == "buf":     # indices beyond of what the harness can write are not generated
                s.ops = [o for o in s.ops if o[0] not in ("rsz", "idx", "at", "wr")]
            out.append(Mem(k, s))
            out += [Mem(k, x) for x in sites(r, s, scale(3, 6))]
        # every single allocation of some scripts is refused
        for s in base[:scale(6, 60)]:
            first = [x for x in s.ops if x[0] != "arm"][:40]
            for j in range(1, scale(40, 120)):
                out.append(Mem(k, Script(s.kind, s.hp, s.p, [("arm", 0, j)] + first, first=None)))
        runs = judge(rep, out, "memory refused: " + k)
        if rep.violations:
            return


def judge(rep, scs, label):
    h = harness()
    lines = [s.line() for s in scs]
    ans = h.run(lines)
    rep.execs += len(scs)
    for l, a in zip(lines, ans):
        if a in ("NOKIND", "BADREQ") or "BADOP" in a:
            raise CheckError("bad request to the harness: %s -> %s" % (l[:200], a[:100]))
    runs = [s.record(a) for s, a in zip(scs, ans)]
    for x, l in zip(runs, lines):
        x["req"] = l[:4000]
    n = sum(a.count("OOM") for a in ans)
    rep.info["failed operations"] = rep.info.get("failed operations", 0) + n
    rep.sample({"request": lines[1][:300], "answer": ans[1][:300]})

    def confirm(i):
        x = scs[i].record(h.run([lines[i]])[0])
        x["req"] = lines[i][:4000]
        return x
    validate(rep, "MemoryTrace", runs, label, None, confirm=confirm)
    return runs
