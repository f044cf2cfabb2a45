"""C07: the instruction flow is the executed program."""
from flowrun import *


def run(c):
    rng = c.rng
    R = Run(c)
    for rnd in range(c.n(1, 12)):
        progs = programs(rng, c.n(110, 120))
        progs += programs(rng, 20, flagf=lambda r: {
            "comp": True, "defer": r.random() < .5, "never": r.choice(
                [["ovf", "psb"], ["ovf", "intr", "leave", "adis"], []])},
            mix={"call": 8, "ret": 6, "icall": 3, "jcc": 4},
            steps=lambda r: r.choice([60, 200]))
        progs += programs(rng, 16, flagf=lambda r: {"more": [r.choice(
            ["intr", "leave", "adis", "ovf", "psb"])]})
        bs = behaviours(c, progs, len(progs) * c.n(8, 30), 250)
        for b in bs:
            enc = encode(rng, b[0], b[1])
            R.behaviour("i", b, rng, kinds=rng.choice(KINDS), enc=enc,
                        secs=split(rng, b[0].sections()),
                        starts=rng.choice(["f", "f", "S%d" % enc[1][0]]))
        for b in bs:
            if rng.random() > c.n(.4, .3):
                continue
            faulty(R, "i", b, rng)
        if R.run():
            break


if __name__ == "__main__":
    main(run, "C07", "exploration")
