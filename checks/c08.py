"""C08: the block decoder gives the same flow under every configuration."""
from flowrun import *


def long(rng, n):
    """Programs with long runs of instructions without a decision."""
    out = []
    for _ in range(n):
        mode = rng.choice([64, 64, 32])
        ev = rng.random() < .4
        out.append(Program(
            rng, flags=flags(rng, defer=False, cfe=False, os=False,
                             never=[] if ev else
                             ["intr", "adis", "ovf", "psb", "else", "exstop",
                              "trig", "leave"]),
            nregions=rng.randrange(1, 3), modes=(mode,), span=9000,
            size=rng.choice([350, 600, 1300, 1600]),
            mix=dict({"other": 400, "jmp": rng.choice([.2, 1]),
                      "call": rng.choice([.2, 1]), "jcc": 1, "ret": .5,
                      "ijmp": .2, "icall": .2, "ptwrite": 0, "cli": 0,
                      "vmptrld": 0, "xbegin": 0, "xend": 0}),
            steps=rng.choice([700, 2200]), exits=False))
    return out


def run(c):
    rng = c.rng
    R = Run(c)
    for rnd in range(c.n(1, 10)):
        progs = programs(rng, c.n(80, 100))
        progs += programs(rng, 25, flagf=lambda r: {
            "comp": True, "defer": False, "never": r.choice(
                [["ovf", "psb"], ["ovf", "intr", "leave", "adis"], []])},
            mix={"call": 8, "ret": 6, "icall": 3, "jmp": 4},
            steps=lambda r: r.choice([60, 200]))
        progs += programs(rng, 16, flagf=lambda r: {"more": [r.choice(
            ["intr", "leave", "adis", "ovf", "psb", "trig"])]})
        # the same memory, executed in two modes
        progs += programs(rng, c.n(24, 40), flagf=lambda r: {
            "more": [r.choice(["intr", "leave", "adis"])]}, dual=True,
            mix=lambda r: r.choice([{}, {"call": 6, "other": 15}]))
        bs = behaviours(c, progs, len(progs) * c.n(6, 25), 250)
        bs += behaviours(c, long(rng, c.n(16, 40)), c.n(40, 300), 2300)
        for b in bs:
            enc = encode(rng, b[0], b[1])
            # once in some configuration, and in others
            for k in range(rng.choice([1, 1, 2, 3])):
                R.behaviour("b", b, rng, enc=enc, kinds=rng.choice(
                    ["c1000000", "c1000000w1", "c1000000w2v"]
                    if b[0].dual else KINDS),
                            cfg=blkcfg(rng),
                            secs=split(rng, b[0].sections())
                            if rng.random() < .6 and
                            not b[0].dual else None)
            if rng.random() < .3:
                faulty(R, "b", b, rng, cfg=blkcfg(rng),
                       kinds=rng.choice(KINDS))
        if R.run():
            break


if __name__ == "__main__":
    main(run, "C08", "exploration")
