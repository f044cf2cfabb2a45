"""C21: instructions are fetched from the address space in force."""
from flowrun import *


def swaps(P, exp):
    """The changes of the address space, as changes of the image."""
    n, at, o = 0, 0, []
    for x in exp:
        if x[0] != "i":
            continue
        if x[7] - 1 != at:
            at = x[7] - 1
            o.append("%d=%d" % (n, at))
        n += 1
    return n, o


def run(c):
    rng = c.rng
    R = Run(c)
    for rnd in range(c.n(1, 12)):
        mix = [{}, {"mcr3": 6}, {"mcr3": 4, "vmptrld": 4}, {"vmptrld": 6},
               {"mcr3": 3, "syscall": 4, "iret": 4, "fret": 3}]
        progs = programs(
            rng, c.n(110, 90), flagf=lambda r: {
                "os": True, "cr3": True, "more": r.sample(
                    ["switch", "intr", "leave", "adis", "psb", "ovf"],
                    r.randrange(3))},
            spaces=lambda r: r.randrange(1, 4),
            vms=lambda r: r.random() < .5,
            modes=lambda r: r.choice([(64,), (64,), (32,), (64, 32)]),
            mix=lambda r: r.choice(mix))
        progs += programs(
            rng, c.n(60, 50), flagf=lambda r: {
                "os": True, "cr3": True, "more": r.sample(
                    ["switch", "intr"], r.randrange(3)), "defer": False},
            spaces=lambda r: r.randrange(2, 4), vms=False, chain=0,
            mix=lambda r: r.choice(mix))
        # the address space changes while tracing is off
        progs += programs(
            rng, c.n(120, 80), flagf=lambda r: {
                "os": True, "cr3": True, "more": ["switch"] + [
                    r.choice(["leave", "adis", "stop", "exstop"])]},
            spaces=lambda r: r.randrange(1, 4), vms=lambda r: r.random() < .8,
            chain=0, nregions=lambda r: r.choice([1, 1, 2]),
            steps=lambda r: r.choice([20, 40]), mix=lambda r: r.choice(mix))
        off = len(progs) - c.n(120, 80)
        bs = behaviours(c, progs, len(progs) * c.n(12, 30), 250)
        moved = 0
        for b in bs:
            P, tr, out, end = b
            enc = encode(rng, P, tr)
            exp = flat(P, expected(P, out, True), P.flags["iflags"])
            moved += len({x[7:] for x in exp if x[0] == "i"}) > 1
            layer = rng.choice("ib")
            if b[0] in progs[off:]:
                R.behaviour("ib"[layer == "i"], b, rng, enc=enc,
                            secs=split(rng, P.sections()),
                            kinds=rng.choice(["f", "c1000000", "c200w1"]))
            kw = {"cfg": blkcfg(rng) if layer == "b" else [], "enc": enc,
                  "kinds": rng.choice(KINDS)}
            # the image knows all address spaces
            R.behaviour(layer, b, rng, secs=split(rng, P.sections()), **kw)
            # one image per address space, changed when the space changes
            n, sw = swaps(P, exp)
            if not P.vms and P.nsp > 1 and len(sw) < 64:
                R.behaviour(layer, b, rng, swaps=",".join(sw) or "-",
                            images=True, **kw)
            # images with the same content, changed at any time
            if n and rng.random() < .3:
                k = rng.randrange(2, 4)
                secs = ";".join(
                    "%d%s" % (i, x[x.index(","):]) for i in range(k)
                    for x in secstr(P, split(rng, P.sections())).split(";"))
                at = sorted(rng.randrange(n) for _ in range(rng.randrange(
                    1, 20)))
                R.behaviour(layer, b, rng, secs=secs, swaps=",".join(
                    "%d=%d" % (x, rng.randrange(k)) for x in at), **kw)
        c.notes["executions in several spaces"] = c.notes.get(
            "executions in several spaces", 0) + moved
        if R.run():
            break


if __name__ == "__main__":
    main(run, "C21", "exploration")
