"""Objects share nothing: interleaved and concurrent use (M05)."""
from .core import *
from . import script, mem, text, enc, path, pipe
from .script import Script

FLAGS = ["-std=gnu++98", "-O1", "-g0", "-w", "-fsanitize=thread"]
TUS = [("ops_main.cpp", []), ("ops_src.cpp", []), ("ops_misc.cpp", [])]
for _e in mem.ENCS:
    TUS += [("ops_text.cpp", ["VIN=" + _e]), ("ops_prn.cpp", ["VOUT=" + _e]), ("ops_path.cpp", ["VATM=" + _e]), ("ops_pipe.cpp", ["VATM=" + _e])]


class Par:
    """scripts of several threads and the order of their operations (None: free)"""

    def __init__(self, lanes, sched):
        self.lanes, self.sched = lanes, sched

    def line(self):
        return "par %s %s" % (".".join(map(str, self.sched)) if self.sched else "free", " ".join(s.line().split(" ", 1)[1] for k, s in self.lanes))

    def record(self, ans):
        a = ans.split(" ")
        if len(a) != len(self.lanes) or ans.startswith("CRASH"):
            a = [ans.replace(" ", "_")] * len(self.lanes)
        recs = [s.record(x)["ops"] for (k, s), x in zip(self.lanes, a)]
        order = self.sched
        if not order:
            order, left = [], [len(x) for x in recs]
            while any(left):
                for t in range(len(left)):
                    if left[t]:
                        order.append(t)
                        left[t] -= 1
        at = [0] * len(recs)
        ops = []
        for t in order:
            ops.append([t] + recs[t][at[t]])
            at[t] += 1
        return {"p": [{"k": k, "p": s.p} for k, s in self.lanes], "ops": ops}


def lane(r):
    k = r.choice(["stack", "hdr", "prn", "path", "path", "pipe", "pipe", "pipe", "src", "buf", "text", "text"])
    if k == "text":
        e = r.choice(["UTF8", "UTF16LE"] + text.ISOS)
        t = list(text.valid_texts(r, e, 1, 12))[0]
        data = enc.encode(e, t)[0]
        s = text.text_script(e, data, r.choice("PCS"), [("new", 0)] + text.schedule(r, e, len(t), "mix", True, False))
        s.ops = s.ops if s.ops[1][0] != "new" else s.ops[1:]
    else:
        s = mem.one(r, k)
        if s is None:
            return lane(r)
        if k == "buf":
            s.ops = [o for o in s.ops if o[0] not in ("rsz", "idx", "at", "wr")]
        s.ops = [o for o in s.ops if o[0] != "dif"]
    return k, s


def shared(r, sched):
    """documents scanned with the same entity map and selected with the same automaton"""
    atm = r.choice(["ISO1", "UTF8", "UTF16LE"])
    nm = pipe.names("ISO1")
    lanes = []
    if r.random() < .5:
        xs = [path.expr(r) for _ in range(r.choice([1, 2, 4]))]
        ops = [c for n, x in enumerate(xs) for c in x.calls(atm, n + 1)]
        kind = r.choice(["pathP-", "pathD-"]) + path.cls(atm)
        for _ in range(r.choice([2, 3, 4])):
            s = path.scr(r, script.plain(ops + path.events(path.doc(r, e=atm, size=r.choice([8, 16]))), []), atm, kind=kind, hp=dict(path.kinds(r), share=1))
            lanes.append(("path", s))
    else:
        ops = pipe.exprs(r, nm, atm, r.choice([1, 2, 4]))
        while len(lanes) < 2:
            inp = r.choice(["ISO1", "UTF8", "UTF16LE"])
            for _ in range(r.choice([1, 2, 3])):
                s = pipe.pipe(r, pipe.doc(r, nm, 5), inp, atm, ops, hp={"share": 1, "ents": 1})
                if s:
                    lanes.append(("pipe", s))
    return Par(lanes, interleave(r, [len(s.ops) for k, s in lanes]) if sched else None)


def interleave(r, lens):
    left, out = list(lens), []
    how = r.random()
    while any(left):
        t = r.choice([k for k, n in enumerate(left) if n])
        for _ in range(min(left[t], 1 if how < .5 else r.randint(1, 6))):
            out.append(t)
            left[t] -= 1
    return out


def m05(rep):
    r = rng("m05")
    out = []
    for _ in range(scale(700, 9000)):
        lanes = [lane(r) for _ in range(r.choice([2, 2, 3, 4]))]
        out.append(Par(lanes, interleave(r, [len(s.ops) for k, s in lanes])))
    out += [shared(r, True) for _ in range(scale(150, 2000))]
    judge(rep, out, "interleaved", script.harness())
    if rep.violations:
        return
    # free running threads, the first ones of the process too; watched by the thread sanitizer
    out = []
    for _ in range(scale(250, 3000)):
        lanes = [lane(r) for _ in range(r.choice([2, 4, 4]))]
        if r.random() < .3:      # the same objects everywhere
            lanes = [lanes[0]] * len(lanes)
        out.append(Par(lanes, None))
    out += [shared(r, False) for _ in range(scale(100, 1500))]
    r.shuffle(out)
    h = Harness(build("par", TUS, flags=FLAGS))
    h.ENV = dict(os.environ, TSAN_OPTIONS="halt_on_error=1:exitcode=97:symbolize=0:report_signal_unsafe=0")
    judge(rep, out, "concurrent", h)
    if not rep.violations:     # processes that do nothing else: the first use of everything is concurrent
        judge(rep, out[:scale(60, 300)], "concurrent, first use", h, True)


def judge(rep, ps, label, h, alone=False):
    lines = [p.line() for p in ps]
    if alone:
        with ThreadPoolExecutor(CPUS) as ex:
            ans = list(ex.map(lambda l: h.run([l])[0], lines))
    else:
        ans = h.run(lines)
    rep.execs += len(ps)
    for l, a in zip(lines, ans):
        if a in ("NOKIND", "BADREQ") or "BADOP" in a:
            raise CheckError("bad request to the harness: %s -> %s" % (l[:200], a[:100]))
    runs = [p.record(a) for p, a in zip(ps, ans)]
    for x, l in zip(runs, lines):
        x["req"] = l[:4000]
    rep.sample({"request": lines[0][:300], "answer": ans[0][:300]})

    def confirm(i):
        x = ps[i].record(h.run([lines[i]])[0])
        x["req"] = lines[i][:4000]
        return x
    validate(rep, "ConcurrentTrace", runs, label, None, confirm=confirm)
    return runs
