"""Running executions of spec/Processor.tla through the flow decoders: shared
by the checks of the instruction flow and the block decoder."""
from flowcheck import *

EXE = "flow.c"


def flags(rng, **kw):
    """What a processor is told to trace."""
    f = {"defer": rng.random() < .2, "comp": rng.random() < .5,
         "filter": rng.random() < .5, "os": rng.random() < .6,
         "iflags": rng.random() < .4, "cfe": rng.random() < .5,
         "trig": rng.random() < .3}
    f.update(kw)
    return f


MODES = [(64,), (64,), (64, 32), (32,), (64, 32, 16), (16,)]


def programs(rng, n, flagf=None, **kw):
    """n programs; flagf(rng) chooses flags, kw override how they look (a
    callable is called with the generator)."""
    out = []
    for _ in range(n):
        fl = flags(rng)
        if flagf:
            fl.update(flagf(rng))
        a = {"modes": rng.choice(MODES), "steps": rng.choice([20, 60, 150])}
        if "cr3" not in fl and fl["os"] and rng.random() < .6:
            fl["cr3"] = True
        if fl.get("cr3"):
            a["spaces"] = rng.randrange(1, 4)
            a["vms"] = rng.random() < .3
        for k, v in kw.items():
            a[k] = v(rng) if callable(v) else v
        out.append(Program(rng, flags=fl, **a))
    return out


def filters(P):
    """The configuration of address filters that fits the program."""
    return ["filt%d=%x-%x" % (k, R["base"], R["base"] + P.span)
            for k, R in enumerate(P.regions[:4])]


def blkcfg(rng):
    return [x for x in ("eoc", "eoj") if rng.random() < .4]


KINDS = ["f", "m", "c0", "c1000000", "c200", "fcm1000", "c300w1", "c90w2",
         "c0w1", "c1000000w1", "c1000000w1v", "c1000000w2v", "fw1v", "c5000w2v"]


def wrong(b, rng):
    """The same execution with a trace that contradicts the image at one
    branch: (bytes, index in out of that branch), or None."""
    P, tr, out, end = b
    # bits in place of a TIP may have been sent ahead of it: not wrong
    cand = [k for k, it in enumerate(tr) if "o" in it and it["t"] == "tnt"]
    if not cand or P.flags["defer"]:
        return None
    k = rng.choice(cand)
    it = tr[k]
    # out is what the user sees: where the branch is in it
    c = P.code[P.map[out[it["o"] - 1]["sp"] - 1][out[it["o"] - 1]["vm"]] - 1][
        out[it["o"] - 1]["a"] - 1]["c"]
    if c == "ret":
        new = {"t": "tnt", "b": [False]}
    else:
        new = {"t": "tip", "a": rng.randrange(P.n) + 1}
    t = [dict(x) for x in tr]
    t[k] = new
    # bits of other branches must stay apart from it
    return t, it["o"]


def upto(P, exp, n, errs):
    """A decode that gets as far as expected record n (an instruction) and
    fails there with one of errs; that instruction may or may not be
    reported, and so may events right before it."""
    def f(rec, **kw):
        lo = n
        while lo and exp[lo - 1][0] != "i":
            lo -= 1
        m = None
        for k in range(n + 1, lo - 1, -1):
            m2 = compare(P, exp[:k], errs, rec, **kw)
            if not m2:
                return None
            m = m or m2
        return m
    return f


def index(P, out, o):
    """The position in flat(expected(out)) of element o (from 1) of out."""
    n = -1
    for e in out[:o]:
        if e["k"] == "i":
            n += 1
        elif e["k"] == "e":
            if e["t"] == "exec_mode" and not e["new"]:
                continue
            if e["t"] == "iflags" and not (P.flags["iflags"] and e["new"]):
                continue
            n += 1
    return n


def missing(b, rng):
    """The same execution with one byte of memory missing: (sections, the
    position in exp of the first instruction that needs it), or None."""
    P, tr, out, end = b
    exp = flat(P, expected(P, out, True), P.flags["iflags"])
    ins = [k for k, x in enumerate(exp) if x[0] == "i"]
    if not ins:
        return None
    a = exp[rng.choice(ins)][1]
    keep = []
    for sp, vm, base, bb in P.sections():
        if base <= a < base + len(bb):
            if a > base:
                keep.append((sp, vm, base, bb[:a - base]))
            if a + 1 < base + len(bb):
                keep.append((sp, vm, a + 1, bb[a + 1 - base:]))
        else:
            keep.append((sp, vm, base, bb))
    if not keep:
        return None
    return keep, next(k for k in ins
                      if exp[k][1] <= a < exp[k][1] + exp[k][2])


def faulty(R, layer, b, rng, cfg=(), **kw):
    """Trace that contradicts the image, or memory that is missing."""
    P, tr, out, end = b
    exp = flat(P, expected(P, out, True), P.flags["iflags"])
    cfg = list(cfg) + (["iflags"] if P.flags["iflags"] else [])
    if rng.random() < .5:
        w = wrong(b, rng)
        if w:
            R.add(layer, P, encode(rng, P, w[0])[0],
                  [upto(P, exp, index(P, out, w[1]),
                        ("bad_query", "bad_retcomp"))], cfg=cfg, **kw)
    else:
        m = missing(b, rng)
        if m:
            R.add(layer, P, encode(rng, P, tr)[0],
                  [upto(P, exp, m[1], ("nomap", "bad_insn"))],
                  cfg=cfg, secs=m[0], **kw)


def ticks(b):
    """The branches after which there has to be a tick, if the time changes
    ahead of every packet."""
    P, tr, out, end = b
    if P.flags["defer"]:
        return ()
    return [index(P, out, it["o"]) for k, it in enumerate(tr)
            if "o" in it and (not k or tr[k - 1]["t"] != "tnt")]


class Run:
    """Collects cases, runs them, and compares."""

    def __init__(self, c):
        self.c = c
        self.cases, self.meta, self.must = [], [], []
        self.kinds = {}

    def add(self, layer, P, raw, exps, cfg=(), kinds="f", secs=None,
            swaps="-", starts="f", images=False, must=()):
        """exps: per start, (expected records, end); the last end may be a set
        of errors.  None: anything that does not crash."""
        cfg = list(cfg) or ["none"]
        if secs is None:
            secs = P.sections()
        if not isinstance(secs, str):
            secs = secstr(P, secs, images)
        self.cases.append("%s %s %s %s %s %s %s" % (
            layer, ",".join(cfg), bytes(raw).hex() or "-", kinds, secs,
            swaps, starts))
        self.meta.append((P, exps, cfg, images))
        self.must.append(must)

    def behaviour(self, layer, b, rng, cfg=(), enc=None, **kw):
        """The plain case: an execution, decoded from its start."""
        P, tr, out, end = b
        raw, psbs = enc or encode(rng, P, tr)
        cfg = list(cfg)
        if P.flags["iflags"]:
            cfg.append("iflags")
        exp = flat(P, expected(P, out, True), P.flags["iflags"])
        self.add(layer, P, raw, [(exp, end)], cfg=cfg, **kw)

    def judge(self, k, line):
        """Message, or None."""
        P, exps, cfg, images = self.meta[k]
        rec = json.loads(line)["r"]
        blk = self.cases[k][0] == "b"
        for r in rec:
            if r[0] in ("endless", "noprogress"):
                return "the decode loop: %s" % r[0]
            if r[0] == "after" and not r[2] or r[0] == "off" and not r[1]:
                return "the position is outside of the trace"
        if exps is None:
            return None
        runs = runs_of(rec)
        if len(runs) != len(exps):
            return "%d decodes where %d are expected" % (len(runs),
                                                         len(exps))
        for x, r in zip(exps, runs):
            kw = {"blk": blk, "eoc": "eoc" in cfg, "eoj": "eoj" in cfg,
                  "images": images, "tick": "tick" in cfg,
                  "must": self.must[k]}
            if callable(x):
                m = x(r, **kw)
            else:
                m = compare(P, x[0], x[1], r, **kw)
            if m:
                return m
        return None

    def run(self):
        c = self.c
        exe = harness(EXE, "asan")
        lines = drive(c, exe, self.cases)
        bad = 0
        for k, l in enumerate(lines):
            m = self.judge(k, l)
            if not m:
                continue
            bad += 1
            if bad > 3:
                continue
            again = run_driver(exe, [], (self.cases[k] + "\n").encode())
            c.violation("%s: decoding does not give the execution: %s" %
                        (c.pid, m[:700]),
                        {"case": self.cases[k], "driver": EXE, "what": m,
                         "reproduced": again.strip() == l.strip(),
                         "recorded": json.loads(l)["r"][-40:]})
        c.cov["evaluations"] = c.cov.get("evaluations", 0) + len(lines)
        c.cov["distinct_nontrivial"] = c.cov.get(
            "distinct_nontrivial", 0) + len(set(self.cases))
        c.cov["traces_validated_against_impl"] += len(lines) - bad
        for k, l in list(enumerate(lines))[::max(1, len(lines) // 3)]:
            c.sample({"case": self.cases[k][:400],
                      "recorded": l.decode()[:600]})
        for P, exps, cfg, images in self.meta:
            if not isinstance(exps, list):
                continue
            for x in exps:
                if callable(x):
                    continue
                for e in x[0]:
                    t = e[1]["t"] if e[0] == "e" else \
                        e[4] if e[0] == "i" else e[0]
                    self.kinds[t] = self.kinds.get(t, 0) + 1
        c.notes["executed"] = self.kinds
        self.cases, self.meta, self.must = [], [], []
        return bad
