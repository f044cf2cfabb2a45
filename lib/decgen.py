"""Histories for DecTrace: which traces, configurations and calls."""
import ptgen
from ptgen import TraceGen, mutate, rand_bytes_packet, cfgstr, ERRATA
from deccheck import case

OPS_E = ["F R300", "F R300 N N N", "L", "B R60 B B", "F R7 B R9 F R300",
         "F F F F R100", "B B B R10", "B F R20 F R300"]
OPS_Q = ["F R300", "F R300 X X X", "L", "B R60 B B", "F R7 B R9 F R300",
         "F F F F R100", "B B B R10", "QX", "QX", "QR"]


def ops_of(rng, layer, ops=None):
    o = rng.choice(ops or (OPS_Q if layer == "q" else OPS_E))
    if o == "QX":
        return "F " + " ".join(rng.choice("XXXXXCIE") for _ in range(50))
    if o == "QR":
        return "F " + " ".join(rng.choice("CIE") for _ in range(40))
    return o


def trace(rng, kind, steps=None, **kw):
    """A list of packets."""
    n = steps or rng.randrange(1, 30)
    if kind == "rand":
        g = TraceGen(rng)
        g.psb(en=rng.random() < .5)
        return g.out + [rand_bytes_packet(rng) for _ in range(n)]
    kw.setdefault("timing", float(rng.choice([0, .15, .4])))
    g = TraceGen(rng, chaos=0, **kw).trace(n)
    return mutate(rng, g.out) if kind == "mut" else g.out


def flat(pkts):
    return [x for p in pkts for x in p]


def history(rng, layer, kind=None, ops=None, errata=.15, cfg=None, pkts=None,
            **kw):
    if pkts is None:
        pkts = trace(rng, kind or rng.choice(["legal", "legal", "mut"]), **kw)
    errs = [e for e in ERRATA if rng.random() < errata]
    extra = [x for x in ("iflags", "keep") if rng.random() < .4]
    if rng.random() < .1:
        extra.append("cb=%d" % rng.choice([1, 2, 3, 8]))
    return case(layer, rng.randrange(8),
                cfg if cfg is not None else
                cfgstr(rng, errata=errs, extra=extra),
                flat(pkts), ops_of(rng, layer, ops))


def clock(rng, steps):
    """Timing packets as a processor with one clock sends them."""
    freq = rng.choice([0, 3, 3, 5, 7, 9, 9, 10, 12])
    eax, ebx = rng.choice([(2, 168), (2, 276), (1, 2), (3, 250), (2, 84)])
    nom = rng.choice([24, 16, 37, 0])
    cfg = "eax=%d,ebx=%d,mtc=%d,nom=%d" % (eax, ebx, freq, nom)
    ctc = rng.getrandbits(20)
    sub = 0
    g = TraceGen(rng, timing=0)
    cbrv = rng.choice([8, 12, 24, 30])
    start = 0       # the time stamp counter wraps around now and then
    if rng.random() < .2:
        start = (1 << 56) - ctc * ebx // eax - rng.getrandbits(16)
    nomtc = rng.random() < .15
    steady = nomtc is False and rng.random() < .3
    ratio = rng.choice([.5, 1, 1.5])    # core cycles per TSC tick
    fresh = [False]

    def tscv():
        return (start + ctc * ebx // eax + sub) & ((1 << 56) - 1)

    def sync_time(psb):
        g.emit(ptgen.tsc(tscv()))
        if rng.random() < .9:
            g.emit(ptgen.tma(ctc & 0xffff, min(sub, 511)))
        if rng.random() < .7:
            g.emit(ptgen.cbr(cbrv))

    def psb(first=False):
        g.emit(ptgen.PSB)
        if rng.random() < .9:
            sync_time(True)
        g.emit(ptgen.fup(3, 0x401000))
        g.emit(ptgen.PSBEND)
        g.en = True
        fresh[0] = True

    def cycles(n):
        # a cycle packet that says that the counter wrapped may get lost
        # after PSB (SKL168)
        if fresh[0] and rng.random() < .6:
            n = max(1, n - 4096 * rng.choice([1, 1, 1, 2]) +
                    rng.choice([rng.randrange(-200, 1200),
                                        rng.randrange(100, 300)]))
        fresh[0] = False
        while n > 0:
            v = n if rng.random() < .7 else rng.randrange(1, n + 1)
            g.emit(ptgen.cyc(v))
            n -= v
    psb(True)
    for _ in range(steps):
        k = rng.random()
        if steady and k < .65:
            d = rng.choice([1, 1, 1, 1, 2]) << freq
            n = int((((ctc >> freq) << freq) + d - ctc) * ebx / eax * ratio *
                    rng.uniform(.97, 1.03))
            ctc = ((ctc >> freq) << freq) + d
            cycles(n)
            g.emit(ptgen.mtc(ctc >> freq))
            k = 1
        if nomtc and k < .45:
            ctc += rng.getrandbits(8)
            if rng.random() < .5:
                psb()
            else:
                sync_time(False)
            k = 1
        if k < .45:
            d = rng.choice([1, 1, 1, 2, 3]) << freq
            ctc = ((ctc >> freq) << freq) + d
            if rng.random() < .95:
                g.emit(ptgen.mtc(ctc >> freq))
        elif k < .75:
            g.emit(ptgen.cyc(rng.choice([1, 20, 31, 32, 100, 4095, 5000,
                                         rng.getrandbits(14)])))
        elif k < .8:
            cbrv = rng.choice([8, 12, 24, 30, 36])
            g.emit(ptgen.cbr(cbrv))
        elif k < .84:
            ctc += rng.getrandbits(10)
            sync_time(False)
        elif k < .87:
            ctc += rng.getrandbits(10)
            psb()
        elif k < .9:
            g.emit(ptgen.OVF)
            ctc += rng.getrandbits(12)
            if rng.random() < .7:
                sync_time(False)
            g.emit(ptgen.fup(6, 0x402000))
        if rng.random() < .5:
            g.emit(rng.choice([ptgen.tnt8(1, 1), ptgen.ptw(0, 1, 0),
                               ptgen.tip(3, 0x403000), ptgen.tnt8(3, 5)]))
    return cfg, g.out
