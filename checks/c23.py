"""C23: events reach the user at the instruction they belong to."""
from flowrun import *

ACTS = ["intr", "adis", "leave", "enable", "ovf", "psb", "else", "else",
        "exstop", "exstop", "trig", "cfe", "tsx", "stop", "switch", "abort"]


def run(c):
    rng = c.rng
    R = Run(c)
    for rnd in range(c.n(1, 12)):
        def busy(r):
            f = {"cfe": r.random() < .7, "iflags": r.random() < .6,
                 "trig": r.random() < .6,
                 "more": r.sample(ACTS, r.randrange(1, 4))}
            if r.random() < .3:
                f["defer"] = False
            return f
        progs = programs(rng, c.n(110, 100), flagf=busy,
                         mix=lambda r: r.choice(
                             [{}, {"ptwrite": 5}, {"cli": 5}, {"mcr3": 3},
                              {"xbegin": 3, "xend": 3}, {"vmentry": 3},
                              {"iret": 3, "fret": 3, "uiret": 3}]))
        # short programs, where many of them happen at the same place
        progs += programs(rng, 40, flagf=busy, nregions=1, size=2,
                          steps=lambda r: r.choice([4, 12]))
        # several address space events at one instruction
        progs += programs(
            rng, 30, flagf=lambda r: {"os": True, "cr3": True}, vms=True,
            spaces=lambda r: r.randrange(1, 3),
            mix=lambda r: {"vmentry": 4, "vmptrld": 4, "mcr3": 2, "other": 3})
        progs += programs(rng, 30)
        bs = behaviours(c, progs, len(progs) * c.n(20, 40), 250)
        for b in bs:
            P = b[0]
            layer = rng.choice("ib")
            cfg = blkcfg(rng) if layer == "b" else []
            r = rng.random()
            if r < .3:
                # the time changes ahead of every packet
                R.behaviour(layer, b, rng, cfg=cfg + ["tick"],
                            enc=encode(rng, b[0], b[1], noise=1, tsc=True),
                            must=ticks(b), kinds=rng.choice(KINDS))
            else:
                if r < .5:
                    cfg = cfg + ["tick"]
                R.behaviour(layer, b, rng, cfg=cfg, kinds=rng.choice(KINDS),
                            enc=encode(rng, b[0], b[1]),
                            secs=split(rng, P.sections(), .1))
        if R.run():
            break


if __name__ == "__main__":
    main(run, "C23", "exploration")
