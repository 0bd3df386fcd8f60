"""Scripts of operations on objects (originals and copies) of one component, see spec/ScriptTrace.tla."""
import json
from .core import *

TUS = [("ops_main.cpp", []), ("ops_src.cpp", []), ("ops_misc.cpp", [])]
for _e in ["IsoLatin", "UTF8", "UTF16BE", "UTF16LE", "UCS2BE", "UCS2LE", "UCS4BE", "UCS4LE"]:
    TUS.append(("ops_text.cpp", ["VIN=" + _e]))
    TUS.append(("ops_prn.cpp", ["VOUT=" + _e]))
    TUS.append(("ops_path.cpp", ["VATM=" + _e]))
    TUS.append(("ops_pipe.cpp", ["VATM=" + _e]))
DUPS = [("UTF8", "UTF8"), ("UTF8", "UTF16LE"), ("IsoLatin", "UTF8"), ("UTF16BE", "UCS4LE"), ("UCS2LE", "IsoLatin"), ("UCS4BE", "UTF8")]
for _a, _b in DUPS:
    TUS.append(("ops_dup.cpp", ["VAPP=" + _a, "VIO=" + _b]))
_exe = None


def harness():
    global _exe
    if _exe is None:
        _exe = Harness(build("ops", TUS))
    return _exe


class Script:
    """kind: class of the harness; hp: parameters for the harness; p: parameters for the specification; ops: [(op, slot, args...)]"""

    def __init__(self, kind, hp, p, ops, first="new"):
        self.kind, self.hp, self.p = kind, hp, p
        self.ops = ([(first, 0)] if first else []) + ops

    def line(self):
        def a(x):
            return x.hex() if isinstance(x, (bytes, bytearray)) else str(x)
        return "ops %s %s %s" % (self.kind, ",".join("%s=%s" % (k, ".".join(map(str, v)) if isinstance(v, (list, tuple)) else a(v)) for k, v in self.hp.items()) or "-",
                                 ";".join(",".join([o[0], str(o[1])] + [a(x) for x in o[2:]]) for o in self.ops))

    def record(self, ans):
        res = ans.split(";")
        ops = []
        for k, o in enumerate(self.ops):
            args = [list(x) if isinstance(x, (bytes, bytearray)) else [x] for x in o[2:]]
            if len(res) == len(self.ops):
                r = parse(res[k])
            else:
                r = ["CRASH " + ans[:200], []] if k == 0 else ["", []]
            ops.append([o[0], o[1], args, r])
        return {"p": self.p, "ops": ops}


def parse(x):
    if x[:1] == "x" and len(x) % 2 == 1 and all(c in "0123456789abcdef" for c in x[1:]):
        return ["", list(bytes.fromhex(x[1:]))]
    try:
        v = int(x)
        return ["", [v if -(1 << 31) <= v < (1 << 31) else -1]]
    except ValueError:
        return [x[:200], []]


def judge(rep, scripts, module, label, extra=None, keep=3):
    h = harness()
    lines = [s.line() for s in scripts]
    ans = h.run(lines)
    rep.execs += len(scripts)
    for l, a in zip(lines, ans):
        if a in ("NOKIND", "BADREQ") or "BADOP" in a:
            raise CheckError("bad request to the harness: %s -> %s" % (l[:200], a[:100]))
    runs = [s.record(a) for s, a in zip(scripts, ans)]
    for r, l in zip(runs, lines):
        r["req"] = l[:4000]
    if runs:
        rep.sample({"request": lines[0][:300], "answer": ans[0][:300]})
        rep.sample({"request": lines[-1][:300], "answer": ans[-1][:300]})

    def confirm(i):
        r = scripts[i].record(h.run([lines[i]])[0])
        r["req"] = lines[i][:4000]
        return r
    n = 20000
    for k in range(0, len(runs), n):
        validate(rep, module, runs[k:k + n], label, extra, confirm=lambda i: confirm(k + i))
        if rep.violations:
            break
    return runs


def weave(r, ops, perturb, observe, p=.3, nslots=4):
    """ops on slot 0 are continued on copies and assigned objects, while the others are used otherwise or destroyed"""
    out, s, live = [], 0, {0}
    for o in ops:
        if r.random() < p:
            t = r.choice([k for k in range(nslots) if k != s])
            out.append(("as" if t in live and r.random() < .6 else "cp", t, s))
            live.add(t)
            if r.random() < .1:
                out.append(("as", s, s))
            other = t
            if r.random() < .6:
                s, other = t, s
            x = r.random()
            if x < .4:
                out.append(("rm", other))
                live.discard(other)
            elif x < .8:
                for _ in range(r.randint(1, 3)):
                    q = r.choice(perturb)
                    out.append((q[0], other) + tuple(q[1:]))
        out.append((o[0], s) + tuple(o[1:]))
        if r.random() < .3:
            for q in observe:
                out.append((q[0], s) + tuple(q[1:]))
    for k in sorted(live):
        for q in observe:
            out.append((q[0], k) + tuple(q[1:]))
    return out


def plain(ops, observe):
    return [(o[0], 0) + tuple(o[1:]) for o in ops] + [(o[0], 0) + tuple(o[1:]) for o in observe]


def tour(rep, module, tag="HIST", cfg=None):
    """histories printed by a tour model; its invariants are checked on the way"""
    r = tlc(module, cfg=cfg, workers=1)
    if not r.ok:
        raise CheckError("specification %s inconsistent: %s\n%s" % (module, r.violated, r.state[:3000]))
    rep.add_tlc(r)
    rep.info.setdefault("design_models", {})[cfg or module] = {"states": r.distinct, "generated": r.generated}
    out = []
    for l in r.out.split("\n"):
        if l.startswith('"%s' % tag):
            out.append(json.loads(json.loads(l)[len(tag):]))
    return out
