"""C04: compressed instruction pointers are reconstructed exactly."""
from vlib import *
import decgen, ptgen
from ptgen import *
from gen import w64
from deccheck import check_histories, case

OPC = {"tip": 0x0d, "pge": 0x11, "pgd": 0x01, "fup": 0x1d}
EDGE = [0, 1, 0xffff, 0x10000, 0xffffffff, 0x100000000, 0x7fffffffffff,
        0x800000000000, 0xffffffffffff, 0x1000000000000, 1 << 63, M64,
        0xffff800000000000, 0xffff7fffffffffff, 0x7fff00000000,
        0x8000, 0x80000000, 0x123456789abcdef0]


def ipseq(rng, kinds, ipcs=None):
    """Packets that give an address, any compression."""
    g = TraceGen(rng, timing=0)
    g.psb(en=rng.random() < .6)
    out = list(g.out)
    en = g.en
    for k in range(len(kinds)):
        ipc = ipcs[k] if ipcs else rng.choice([0, 1, 1, 2, 2, 3, 4, 6])
        v = rng.choice(EDGE) if rng.random() < .4 else w64(rng)
        kind = kinds[k]
        if kind == "fup":
            if rng.random() < .6:
                out.append(ptw(rng.randrange(2), w64(rng), 1))
                out.append(ip(0x1d, ipc, v))
            elif en:
                out.append(ip(0x1d, ipc, v))
                out.append(ip(0x0d, rng.choice([0, 1, 2, 3, 4, 6]),
                              rng.choice(EDGE)))
            continue
        if kind == "tip" and not en:
            kind = "pge"
        out.append(ip(OPC[kind], ipc, v))
        en = kind != "pgd" if kind != "tip" else en
        if rng.random() < .05:
            g.out = []
            g.psb(en=en)
            out += g.out
        if rng.random() < .05:
            out.append(OVF)
            out.append(ip(0x1d, rng.choice([1, 2, 3, 4, 6]), w64(rng)))
            en = True
    return out


def run(c):
    rng = c.rng
    cases = []

    def add(pk):
        cases.append(decgen.history(rng, rng.choice("eeq"),
                                    ops=["F R300"], errata=0, cfg="none",
                                    pkts=pk))
    # all pairs of compression modes for all pairs of packets
    ks = ["tip", "pgd", "pge", "fup"]
    for a in ks:
        for b in ks:
            for x in (0, 1, 2, 3, 4, 6):
                for y in (0, 1, 2, 3, 4, 6):
                    add(ipseq(rng, [a, b, "tip"], [x, y,
                                                   rng.choice([1, 2, 4])]))
    # all triples of compression modes
    for x in (0, 1, 2, 3, 4, 6):
        for y in (0, 1, 2, 3, 4, 6):
            for z in (0, 1, 2, 3, 4, 6):
                add(ipseq(rng, ["tip"] * 3, [x, y, z]))
    # reserved compression modes
    for x in (5, 7):
        for k in ks:
            add(ipseq(rng, [k, "tip"], [3, 1]) +
                [[OPC[k] | x << 5] + le(w64(rng), 8)])
    for _ in range(c.n(4000, 100000)):
        n = rng.randrange(2, 12)
        add(ipseq(rng, [rng.choice(ks + ["tip"] * 3) for _ in range(n)]))
    for _ in range(c.n(1500, 40000)):
        cases.append(decgen.history(rng, rng.choice("eq"), "legal",
                                    ops=["F R300"], errata=0, timing=0,
                                    events=.5))
    check_histories(c, cases)


if __name__ == "__main__":
    main(run, "C04", "exploration")
