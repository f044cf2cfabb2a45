"""Decodes of executions with timing packets against FlowTime.tla."""
import json
from flowcheck import *
import ptgen

CFG = "INIT TraceInit\nNEXT TraceNext\n"


class Clock:
    """Timing packets between other packets."""

    def __init__(self, rng):
        self.rng = rng
        self.freq = rng.choice([0, 3, 5, 9])
        eax, ebx = rng.choice([(2, 168), (1, 2), (3, 250), (0, 0)])
        nom = rng.choice([24, 16, 0])
        if rng.random() < .35:      # cycles cannot be used
            eax = ebx = nom = 0
        self.cfg = ["eax=%d" % eax, "ebx=%d" % ebx, "mtc=%d" % self.freq,
                    "nom=%d" % nom]
        self.ctc = rng.getrandbits(20)
        self.tsc = rng.getrandbits(rng.choice([20, 40, 55]))
        self.busy = rng.choice([.2, .5, .9])

    def __call__(self):
        rng, out = self.rng, []
        while rng.random() < self.busy and len(out) < 40:
            k = rng.random()
            if k < .4:
                self.ctc += rng.choice([1, 1, 1, 2]) << self.freq
                self.tsc += 50
                out += ptgen.mtc(self.ctc >> self.freq)
            elif k < .75:
                out += ptgen.cyc(rng.choice([1, 20, 32, 100, 4095,
                                             rng.getrandbits(14)]))
            elif k < .87:
                self.tsc += rng.getrandbits(10)
                out += ptgen.tsc(self.tsc)
                if rng.random() < .8:
                    out += ptgen.tma(self.ctc & 0xffff, rng.getrandbits(6))
            elif k < .93:
                out += ptgen.cbr(rng.choice([8, 12, 24, 30]))
            else:
                out += ptgen.PAD
        return out


def history(rec):
    """Recorded calls up to the first error, as FlowTime's ops."""
    ops = []
    op = None
    for r in rec["r"]:
        t = r[0]
        if t == "s":
            op = {"op": "s", "so": r[3]} if not r[2] else None
            if op is None:
                break
        elif t == "e":
            op = {"op": "e", "ev": r[1]}
        elif t == "x":
            break
        elif t == "t":
            if op is None:
                break
            op.update(zip(("te", "tsc", "lm", "lc", "ce", "cbr"), r[1:]))
            ops.append(op)
            op = None
        elif len(r) > 2 and r[2] in ("i", "b", "-"):
            cls = r[6] if r[2] == "i" else r[6] if r[2] == "b" else ""
            op = {"op": "i", "cls": cls}
    return ops


def flow_times(c, behs):
    rng = c.rng
    cases, bufs = [], []
    for k, b in enumerate(behs):
        P, tr, out, end = b
        ck = Clock(rng)
        raw, psbs = encode(rng, P, tr, clock=ck)
        cfg = list(ck.cfg)
        if P.flags["iflags"]:
            cfg.append("iflags")
        tick = rng.random() < .4
        if tick:
            cfg.append("tick")
        if rng.random() < .3:
            cfg.append("keep")
        cases.append("%s %s %s %s %s - %s" % (
            "ib"[k % 2], ",".join(cfg), bytes(raw).hex() or "-", "ft",
            secstr(P, P.sections(), False), rng.choice("fF")))
        bufs.append((raw, tick))
    exe = harness("flow.c", "asan")
    lines = drive(c, exe, cases)
    todo, names = [], []
    for k, l in enumerate(lines):
        rec = json.loads(l)
        if ["unstable"] in rec["r"]:
            c.violation("%s: asking for the time twice gives different "
                        "answers" % c.pid, {"case": cases[k]})
        ops = history(rec)
        conf = dict(rec["cfg"], buf=list(bufs[k][0]))
        if ops:
            todo.append(json.dumps({"c": conf, "layer": cases[k][0], "tick": int(bufs[k][1]),
                                    "ops": ops}))
            names.append(cases[k])
    for idx, st in validate(c, "FlowTime", todo, CFG, cases=names,
                            deadlock=True):
        m = re.search(r"/\\ k = (\d+)", st)
        k = int(m.group(1)) if m else 0
        ops = json.loads(todo[idx])["ops"]
        c.violation("%s: the time after call %d of the decode is not what the "
                    "timing packets say: %s" % (
                        c.pid, k + 1, json.dumps(ops[k:k + 1])[:500]),
                    {"case": names[idx], "driver": "flow.c", "call": k + 1,
                     "ops": ops[max(0, k - 5):k + 1], "spec_state": st})
    c.cov["flow_time_calls"] = sum(l.count('"op":') for l in todo)
