"""C11: errata workarounds apply exactly where they should."""
from flowrun import *
import decgen, ptgen
from ptgen import *
from deccheck import check_histories, case
from pktcheck import check_cases

CPU = (os.path.join(REPO, "libipt/src/pt_cpu.c"),)


def some(rng, *alts):
    return rng.choice(alts)


def fill(rng, n=4):
    """Packets that do not matter for an erratum."""
    out = []
    for _ in range(rng.randrange(n)):
        out.append(some(rng, PAD, mtc(rng.randrange(256)), cyc(rng.choice(
            [1, 40, 7])), mnt(5), cbr(20), tsc(rng.getrandbits(30)),
            tma(3, 4)))
    return out


def near(rng):
    """The packets an erratum's pattern is made of, in nearly that order."""
    ip = rng.choice([0x401000, 0x7fff12345000, 0xffffffff81000000])
    c = lambda: rng.choice([0, 0, 1, 2, 3, 3, 4, 6])
    pool = [lambda: fup(c(), ip), lambda: tip(c(), ip + 5),
            lambda: pge(c(), ip), lambda: pgd(c(), ip),
            lambda: STOP, lambda: OVF, lambda: PSB, lambda: PSBEND,
            lambda: mode_exec(1, 0), lambda: mode_tsx(0, 1),
            lambda: tnt8(2, 1), lambda: pip(0x1000), lambda: vmcs(0x2000),
            lambda: cbr(12), lambda: PAD, lambda: mtc(9),
            lambda: [2, 0x73] + [rng.getrandbits(8) for _ in range(5)],
            lambda: cyc(rng.choice([0, 1, 0x1f, 0x20, 0xfff, 0x3000])),
            lambda: exstop(1), lambda: ptw(0, 1, 1)]
    return [rng.choice(pool)() for _ in range(rng.randrange(1, 9))]


def start(rng, ip=0x400000, on=True):
    out = [PSB] + fill(rng, 2)
    if rng.random() < .5:
        out.append(mode_exec(1, 0))
    if on:
        out.append(fup(3, ip))
    return out + [PSBEND]


def defect(rng, e):
    """Traces with the defect of erratum e, or nearly."""
    ip = rng.choice([0x401000, 0x7fff12345000, 0xffffffff81000000])
    f = lambda n=3: fill(rng, n)
    if e == "bdm70":
        # PSB+ before a TIP.PGE says that tracing is already enabled
        out = start(rng, on=rng.random() < .5)
        if rng.random() < .5:
            out += [pgd(3, 0x400100)]
        out += f() + [PSB] + f() + some(rng, [], [mode_exec(1, 0)],
                                        [mode_tsx(0, 0)], [pip(0x5000)])
        out += [fup(rng.choice([3, 3, 0, 6]), ip)] + \
            some(rng, [], [mode_exec(1, 0)], [pip(0x7000)]) + [PSBEND]
        out += f() + some(rng, [], [], [mode_exec(1, 0)], [tnt8(1, 1)],
                          [PSB, PSBEND], [mode_tsx(1, 0)], [pip(0x6000)])
        out += f() + [some(rng, pge(3, ip), pge(0), tip(3, ip), pgd(1, 2),
                           pge(1, ip & 0xffff))]
    elif e == "skd007":
        # an overflow swallowed the top of a CYC
        out = start(rng) + f()
        out += [some(rng, [7, 2, 0xf3], [0xff, 2, 0xf3], [0x0f, 2, 0xf3],
                     [7, 3, 2, 0xf3], [3, 2, 0xf3], [7, 2], [7, 2, 0xf2],
                     [7, 3, 0xf3], [7, 0xff, 2, 0xf3])]
        out += some(rng, [], [fup(3, ip)], [tip(3, ip)])
    elif e == "skd010":
        # an OVF without FUP although tracing is enabled
        out = start(rng) + f() + [OVF] + f() + some(
            rng, [tip(3, ip)], [tnt8(2, 2)], [PSB] + f(2) + [fup(3, ip),
                                                             PSBEND],
            [PSB, PSBEND], [pge(3, ip)], [pgd(3, ip)], [fup(3, ip)],
            [mode_exec(1, 0), tip(3, ip)], [mode_tsx(0, 0), fup(3, ip)],
            [fup(3, ip), tip(3, ip + 64)], [STOP], [pip(0x1000), tip(3, ip)],
            [ptw(0, 1, 1), fup(3, ip)], [OVF, fup(3, ip)], [pgd(0)], [],
            [exstop(1), fup(3, ip)], [mwait(1, 2), fup(3, ip)],
            [cfe(1, 2, 1), fup(3, ip)], [vmcs(0x3000), fup(3, ip)])
    elif e == "apl11":
        # an OVF that is resolved by a TIP.PGD
        out = start(rng) + f() + [OVF] + f() + some(
            rng, [pgd(3, ip)], [pgd(0)], [fup(3, ip), pgd(3, ip)],
            [tip(3, ip)], [mode_exec(1, 0), pgd(0)], [pge(3, ip)],
            [PSB, PSBEND, pgd(0)], [STOP], [tnt8(1, 0), pgd(0)], [])
    elif e == "apl12":
        # an OVF with a FUP although tracing is disabled
        out = start(rng) + f() + [OVF] + f() + \
            [fup(rng.choice([3, 3, 0, 6]), ip)] + f() + some(
            rng, [pge(3, ip)], [STOP, pge(3, ip)], [STOP], [tnt8(1, 1)],
            [tip(3, ip)], [PSB, PSBEND, pge(3, ip)], [pgd(0)],
            [mode_exec(1, 0), pge(3, ip)], [mode_tsx(0, 1), pge(3, ip)],
            [pip(0x1000), pge(3, ip)], [vmcs(0x1000), pge(3, ip)], [],
            [PSB] + f(2) + [fup(3, ip), PSBEND], [OVF, pge(3, ip)],
            [pwrx(1, 2, 1), pge(3, ip)], [mode_tsx(0, 0), fup(3, ip)],
            [exstop(0), STOP])
    elif e == "skl168":
        # a CBR after which the cycle count was calibrated wrongly
        out = start(rng)
        for _ in range(rng.randrange(1, 5)):
            out += f(2) + some(rng, [PSB, tsc(rng.getrandbits(20)),
                                     tma(1, 2), cbr(20), PSBEND],
                               [PSB, PSBEND], [cbr(rng.choice([8, 20, 30]))])
            out += [some(rng, mtc(rng.randrange(256)), cyc(50), tnt8(1, 1))
                    for _ in range(rng.randrange(6))]
    else:
        # a TMA with a reserved bit set
        out = start(rng) + f()
        t = [2, 0x73] + [rng.getrandbits(8) for _ in range(5)]
        t[4] = rng.choice([0, 0, 0, 1, 0x80])
        t[6] = rng.choice([0, 1, 0, 1, 2, 0x80, 3])
        if rng.random() < .7:
            out += [tsc(rng.getrandbits(40))]
        out += [t[:rng.choice([7, 7, 7, 6, 2])]] + \
            some(rng, [], [[rng.getrandbits(8)]], [[2, 0x73]], [tnt8(1, 1)],
                 [tsc(5)])
    # what follows shows in which state the decoder is left
    for _ in range(rng.randrange(5)):
        out += f(2) + [some(rng, tip(1, 0x123), tnt8(2, 1), pgd(1, 0x200),
                            pge(3, 0x405000), fup(1, 0x77), OVF,
                            mode_exec(0, 1), pip(0x9000))]
    return out


PKT = ["bdm70", "skd007", "skd010", "apl11", "apl12", "skl168", "skz84"]


MIX = {"bdm64": {"xbegin": 3, "ijmp": 4, "icall": 3, "jcc": 6},
       "skd022": {"vmentry": 4}, "skl014": {"jmp": 4, "call": 4, "jcc": 3}}


def flow(c):
    """Executions of processors with and without the errata that need the
    code to be worked around."""
    rng = c.rng
    R = Run(c)
    for rnd in range(c.n(1, 10)):
        sets = []
        for e in MIX:
            progs = programs(
                rng, c.n(40, 60), flagf=lambda r: {
                    e: True, "defer": False,
                    "filter": e == "skl014" or r.random() < .5,
                    "more": ["bdm64"] if e == "bdm64" else
                    r.sample(["leave", "adis", "intr"], r.randrange(2))},
                modes=(64,), mix=lambda r: MIX[e])
            sets.append((e, progs))
        sets.append(("", programs(rng, c.n(40, 60), mix=lambda r: MIX[
            r.choice(list(MIX))])))
        for e, progs in sets:
            for b in behaviours(c, progs, len(progs) * c.n(6, 30), 250):
                layer = "i" if e == "bdm64" else rng.choice("ib")
                cfg = [e] if e else rng.sample(
                    ["apl11", "skz84"], rng.randrange(3))
                if not e and not any(x["c"] == "vmentry"
                                     for m in b[0].code for x in m):
                    # tracing that is disabled right ahead of a vm entry
                    # looks like the defect
                    cfg.append("skd022")
                if e == "skl014":
                    cfg += filters(b[0])
                elif not e and layer == "b":
                    # the block decoder does not work around it
                    cfg.append("bdm64")
                R.behaviour(layer, b, rng, kinds=rng.choice(KINDS),
                            cfg=cfg + (blkcfg(rng) if layer == "b" else []))
        if R.run():
            break


def run(c):
    rng = c.rng
    # which errata a processor has: every model of the families there are
    cases = []
    for v in (0, 1):
        for f in (5, 6, 7, 15, 19):
            for m in range(256):
                cases.append("E %d %d %d %d" % (v, f, m, rng.randrange(16)))
    for _ in range(c.n(200, 5000)):
        cases.append("E %d %d %d %d" % (
            rng.randrange(3), rng.choice([6, 19, 0x106, rng.getrandbits(16)]),
            rng.randrange(256), rng.randrange(256)))
    check_cases(c, cases, "ConfigTrace", src="cfg.c", extra_src=CPU)
    # traces with and without a defect, with and without the flags
    h = []

    def add(pk, flags):
        layer = rng.choice("peeeqq")
        ex = [x for x in ("iflags", "keep") if rng.random() < .2]
        cfg = "eax=2,ebx=168,mtc=3,nom=24" + \
            "".join("," + x for x in flags + ex)
        buf = decgen.flat(pk)
        if rng.random() < .15:
            buf = buf[:rng.randrange(len(buf) + 1)]
        op = "F R200" if rng.random() < .8 else decgen.ops_of(rng, layer)
        h.append(case(layer, rng.randrange(8), cfg, buf, op))
    for _ in range(c.n(700, 20000)):
        for e in PKT:
            pk = defect(rng, e)
            add(pk, rng.choice([[e], [e], [], [x for x in PKT if x != e],
                                PKT, [x for x in ERRATA
                                      if rng.random() < .5]]))
    for _ in range(c.n(1500, 40000)):
        pk = start(rng)
        for _ in range(rng.randrange(1, 4)):
            pk += near(rng)
        add(pk, [x for x in PKT if rng.random() < .6])
    check_histories(c, h)
    flow(c)


if __name__ == "__main__":
    main(run, "C11", "exploration")
