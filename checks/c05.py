"""C05: events are delivered completely, in order, bound to their packet."""
from vlib import *
import decgen
from deccheck import check_histories


def run(c):
    rng = c.rng
    cases = []
    for k in range(c.n(3000, 60000)):
        kind = ["legal", "legal", "mut", "mut", "rand"][k % 5]
        cases.append(decgen.history(rng, "e", kind,
                                    ops=["F R400"] if k % 3 else None))
    # every pair and many triples of packets behind a PSB+
    import ptgen
    mk = packets(rng)
    seqs = [[a, b] for a in mk for b in mk]
    seqs += [[rng.choice(mk) for _ in range(rng.randrange(3, 7))]
             for _ in range(c.n(2500, 60000))]
    for s in seqs:
        g = ptgen.TraceGen(rng, timing=0)
        g.psb(en=rng.random() < .7)
        cases.append(decgen.history(
            rng, "e", ops=["F R100"], errata=0,
            cfg="iflags" if rng.random() < .5 else "none",
            pkts=g.out + [f() for f in s]))
    check_histories(c, cases)
    c.assumptions.append("packet sequences: all pairs of packet kinds behind "
                         "a PSB+, sampled longer ones, legal, mutated and "
                         "random")


def packets(rng):
    """One generator per kind of packet that the event decoder tells apart."""
    from ptgen import fup, tip, pge, pgd, tnt8, tnt64, pip, vmcs, cbr, tsc, \
        mtc, mode_exec, mode_tsx, mnt, exstop, mwait, pwre, pwrx, ptw, cfe, \
        evd, trigp, cyc, PSB, PSBEND, OVF, STOP, PAD
    from gen import w64
    r = rng.randrange
    L = [lambda: fup(0), lambda: fup(3, 0x401000 + r(256)),
         lambda: tip(0), lambda: tip(3, 0x402000 + r(256)),
         lambda: pge(0), lambda: pge(3, 0x403000 + r(256)),
         lambda: pgd(0), lambda: pgd(3, 0x404000 + r(256)),
         lambda: tnt8(3, r(8)), lambda: pip(r(1 << 40) << 5, r(2)),
         lambda: vmcs(r(1 << 40) << 12), lambda: cbr(r(1, 255)),
         lambda: tsc(r(1 << 40)),
         lambda: mode_exec(1, 0, r(2)), lambda: mode_exec(0, 1, r(2)),
         lambda: mode_tsx(1, 0), lambda: mode_tsx(0, 0),
         lambda: mode_tsx(0, 1), lambda: mnt(w64(rng)),
         lambda: exstop(0), lambda: exstop(1), lambda: mwait(r(256), r(2)),
         lambda: pwre(r(2), r(16), r(16)), lambda: pwrx(r(16), r(16), r(16)),
         lambda: ptw(0, w64(rng), 0), lambda: ptw(1, w64(rng), 1),
         lambda: PSB, lambda: PSB + PSBEND, lambda: PSBEND, lambda: OVF,
         lambda: STOP, lambda: PAD,
         lambda: trigp(rng, 0, 1), lambda: trigp(rng, 0, 0),
         lambda: trigp(rng, 1, 1, 0), lambda: [2, 0x3f]]
    for t in range(14):
        for ipb in (0, 1):
            L.append(lambda t=t, ipb=ipb: cfe(t, r(256), ipb))
    for t in range(4):
        L.append(lambda t=t: evd(t, w64(rng)))
    return L


if __name__ == "__main__":
    main(run, "C05", "exploration")
