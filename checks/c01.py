"""C01: encoded packets decode back to themselves."""
from vlib import *
import gen
from pktcheck import check_cases


def size_guess(p):
    t = p.split()[0]
    f = dict(x.split("=") for x in p.split()[1:])
    if t in gen.SIZE:
        return gen.SIZE[t]
    if "ipc" in f:
        return 1 + {0: 0, 1: 2, 2: 4, 3: 6, 4: 6, 6: 8}.get(int(f["ipc"], 16), 0)
    if t == "cyc":
        v, n = int(f["value"], 16) >> 5, 1
        while v:
            v >>= 7
            n += 1
        return n
    if t == "ptw":
        return 10 if f["plc"] == "1" else 6
    if t == "trig":
        return 5 if f["icntv"] == "1" else 3
    return 1


def run(c):
    rng = c.rng
    cases = []
    per = c.n(110, 2500)
    for t in gen.TYPES:
        for k in range(per):
            p = gen.rand_packet(rng, t)
            n = size_guess(p)
            room = n if k % 2 else rng.randrange(0, n + 4)
            cases.append("E %d %d %s" % (room, rng.randrange(0, 4), p))
    # every room for every type, every tnt size, every cyc length
    for t in gen.TYPES + gen.BADTYPES:
        for room in range(0, 20):
            cases.append("E %d 1 %s" % (room, gen.rand_packet(rng, t)))
    for n in range(0, 10):
        for b in range(0, 256, 1 if n < 7 else 37):
            cases.append("E 4 0 tnt_8 n=%x bits=%x" % (n, b))
    for n in range(0, 66):
        for b in (0, 1 << max(0, n - 1), (1 << n) - 1, 1 << min(n, 63)):
            cases.append("E 8 0 tnt_64 n=%x bits=%x" % (n, b & (2**64 - 1)))
    for n in range(64):
        for v in (1 << n, (1 << n) - 1, (1 << n) + 1, (2**64 - 1) ^ (1 << n)):
            cases.append("E 12 0 cyc value=%x" % v)
            for t, f in (("pip", "cr3"), ("vmcs", "base"), ("tsc", "tsc"),
                         ("mnt", "payload")):
                cases.append("E 12 0 %s %s=%x" % (t, f, v))
            for ipc in (1, 2, 3, 4, 6):
                cases.append("E 9 0 %s ipc=%x ip=%x" % (
                    ("tip", "fup", "tip_pge", "tip_pgd")[n % 4], ipc, v))
    lines = check_cases(c, cases)
    for k in range(0, len(cases), max(1, len(cases) // 4)):
        c.sample({"case": cases[k], "recorded": lines[k].decode()
                  if k < len(lines) else ""})
    c.assumptions.append("packet layouts as transcribed in spec/Packets.tla; "
                         "inputs are sampled, not enumerated")


main(run, "C01", "exploration")
