"""C03: synchronization visits every sync point exactly once, in order."""
from vlib import *
import decgen, ptgen
from ptgen import PSB, PSBEND, PAD, TraceGen
from deccheck import check_histories, case


def soup(rng):
    """PSBs at any alignment, whole, cut, adjacent and overlapping."""
    buf = []
    for _ in range(rng.randrange(1, 8)):
        k = rng.randrange(10)
        if k < 4:
            buf += PSB
        elif k == 4:
            buf += PSB[:rng.randrange(16)]
        elif k == 5:
            buf += PSB[rng.randrange(16):]
        elif k == 6:
            x = list(PSB)
            x[rng.randrange(16)] ^= 1 << rng.randrange(8)
            buf += x
        elif k == 7:
            buf += [2, 0x82] * rng.randrange(1, 40)
        if rng.random() < .7:
            buf += rng.choice([
                PAD * rng.randrange(1, 20), [0x82], [2], [0x82, 2],
                [rng.choice([2, 0x82, 0]) for _ in range(rng.randrange(12))],
                [rng.randrange(256) for _ in range(rng.randrange(12))]])
        if rng.random() < .4:
            buf += PSBEND
    return buf


def plus(rng):
    """PSB+ headers, complete and cut, with packets between."""
    g = TraceGen(rng, timing=.1)
    n = rng.randrange(1, 6)
    for _ in range(n):
        g.psb(en=rng.random() < .5, ovf=rng.random() < .1)
        if rng.random() < .2 and len(g.out) > 1:
            g.out.pop()         # no PSBEND
        for _ in range(rng.choice([0, 0, 1, 4])):
            g.step()
    if rng.random() < .2:
        g.out = ptgen.mutate(rng, g.out)
    buf = decgen.flat(g.out)
    if rng.random() < .4:
        buf = buf[:rng.randrange(len(buf) + 1)]
    return buf


def walk(rng, layer, n):
    k = rng.randrange(8)
    if k == 0:
        return "F " * 12
    if k == 1:
        return "B " * 12
    if k == 2:
        return "F " * rng.randrange(1, 5) + "B " * 8
    if k == 3:
        return "B " * rng.randrange(1, 5) + "F " * 8
    if k == 4:
        return "S%d " % rng.randrange(n + 3) + rng.choice(["B B B", "F F F"])
    o = []
    for _ in range(rng.randrange(4, 16)):
        x = rng.random()
        if x < .3:
            o.append("F")
        elif x < .6:
            o.append("B")
        elif x < .7:
            o.append("S%d" % rng.choice([rng.randrange(n + 3), n, n + 1,
                                         n - 16 if n > 16 else 0,
                                         2 ** 63, 2 ** 64 - 1]))
        elif layer == "q":
            o.append(rng.choice(["X", "R5", "R40"]))
        else:
            o.append(rng.choice(["N", "R3", "R40"]))
    return " ".join(o)


def run(c):
    rng = c.rng
    cases = []
    # every alignment of one and of two sync points
    for pre in range(0, 24):
        for gap in range(0, 20):
            if (pre + gap) % 3 and gap > 3:
                continue
            buf = PAD * pre + PSB + PAD * gap + PSB + PSBEND
            for o in ("F F F F", "B B B B"):
                cases.append(case("p", pre % 8, "none", buf, o))
    for k in range(c.n(7000, 150000)):
        layer = "peq"[rng.randrange(3)] if k % 2 else "p"
        buf = soup(rng) if rng.random() < (.8 if layer == "p" else .3) \
            else plus(rng)
        cases.append(case(layer, rng.randrange(8),
                          "none", buf, walk(rng, layer, len(buf))))
    # every offset of a trace as the place to synchronize to
    for _ in range(c.n(4, 40)):
        buf = plus(rng)[:160]
        for s in range(len(buf) + 2):
            for layer in "eq":
                cases.append(case(layer, s % 8, "none", buf, "S%d" % s))
    # offset arguments are 32 bits in the recording
    cases = [re.sub(r"S(\d{10,})", "S2000000000", x) for x in cases]
    check_histories(c, cases)


if __name__ == "__main__":
    main(run, "C03", "exploration")
