"""C27: whatever the trace, the reported flow is a path through the image."""
from flowrun import *
from flowpath import paths
from c20 import damage


def retag(rng, raw):
    """Other mode packets in the places of some."""
    b = bytearray(raw)
    at = [k for k in range(len(b) - 1) if b[k] == 0x99]
    for k in at:
        if rng.random() < max(.2, 1 / len(at)):
            b[k + 1] = rng.choice([0, 1, 2, 0x20, 0x21, 0x22])
    return bytes(b)


def run(c):
    rng = c.rng
    R = Run(c)
    for rnd in range(c.n(3, 30)):
        progs = programs(rng, c.n(60, 100), steps=lambda r: r.choice(
            [10, 30, 60]))
        progs += programs(rng, c.n(16, 30), flagf=lambda r: {"more": [
            r.choice(["intr", "leave", "adis", "ovf", "tsx", "exec"])]})
        bs = behaviours(c, progs, len(progs) * c.n(5, 16), 150)
        for b in bs:
            P = b[0]
            raw, psbs = encode(rng, P, b[1])
            for _ in range(c.n(4, 8)):
                layer = rng.choice("ib")
                cfg = [x for x in ("iflags", "tick") if rng.random() < .3]
                if layer == "b":
                    cfg += blkcfg(rng)
                secs = split(rng, P.sections(), .1)
                if rng.random() < .1:
                    del secs[rng.randrange(len(secs))]
                secs = secs or P.sections()
                d = raw
                if rng.random() < .25:
                    d = retag(rng, d)
                if rng.random() < .85:
                    d = damage(rng, d)
                R.add(layer, P, d, None, cfg=cfg, secs=secs,
                      kinds="f" if P.dual else rng.choice(KINDS),
                      starts=rng.choice(["F", "F", "f", "f B/3 F"]))
        if paths(c, R):
            break


if __name__ == "__main__":
    main(run, "C27", "exploration")
