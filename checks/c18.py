"""C18: instructions have the length and kind the architecture defines."""
import json
from vlib import *
from pktcheck import check_cases

GROUP = 40
PFX = [0x66, 0x67, 0xf0, 0xf2, 0xf3, 0x26, 0x2e, 0x36, 0x3e, 0x64, 0x65]
#: opcodes of maps 0 and 1 that matter for the flow
HOT0 = list(range(0x70, 0x80)) + [
    0x9a, 0xff, 0xe8, 0xe9, 0xea, 0xeb, 0xcc, 0xcd, 0xce, 0xcf, 0xf1, 0xe0,
    0xe1, 0xe2, 0xe3, 0xc2, 0xc3, 0xca, 0xcb, 0xc4, 0xc5, 0x62, 0xd5, 0xa1,
    0xc7, 0xc6, 0xf6, 0xf7, 0xc8, 0x8f, 0xa0, 0xa2, 0xa3, 0xb8, 0x68, 0x69]
HOT1 = list(range(0x80, 0x90)) + [
    0x01, 0x05, 0x07, 0x34, 0x35, 0x22, 0x20, 0x21, 0x23, 0xc7, 0xae, 0x78,
    0xb8, 0xba, 0x77, 0x0d, 0x1e, 0x01, 0x01]
HOTX = [0xc1, 0xc2, 0xc3, 0xca, 0xec, 0xee, 0xd0, 0xf8]


def prefixes(rng, mode):
    k = rng.choice([0, 0, 0, 0, 1, 1, 1, 2, 2, 3, rng.randrange(12)])
    p = [rng.choice(PFX[:5] if rng.random() < .7 else PFX) for _ in range(k)]
    if mode == 64 and rng.random() < .4:
        p.append(rng.randrange(0x40, 0x50))
        if rng.random() < .1:       # a REX that does not count
            p.append(rng.choice(PFX))
    return p


def modrm(rng):
    r = rng.random()
    if r < .15:
        return rng.choice(HOTX)
    if r < .5:      # the special rows of the addressing forms
        return rng.choice([0x04, 0x05, 0x06, 0x44, 0x45, 0x46, 0x84, 0x85,
                           0x86, 0xc4]) | rng.randrange(8) << 3
    return rng.randrange(256)


def opcode(rng, mode, legacy):
    """An opcode with what comes before it."""
    r = rng.random()
    if legacy or r < .72:
        r = rng.random()
        if r < .35:
            return [rng.choice(HOT0) if rng.random() < .4 else
                    rng.randrange(256)]
        if r < .75:
            return [0x0f, rng.choice(HOT1) if rng.random() < .5 else
                    rng.randrange(256)]
        return [0x0f, rng.choice([0x38, 0x3a]), rng.randrange(256)]
    hi = 0xc0 if mode != 64 else rng.choice([0, 0x40, 0x80, 0xc0])
    if rng.random() < .06:
        hi = rng.choice([0, 0x40, 0x80, 0xc0])
    if r < .78:
        return [0xc5, hi | rng.randrange(64), rng.randrange(256)]
    if r < .85:
        m = rng.choice([1, 2, 3, rng.randrange(32)])
        return [0xc4, hi | rng.randrange(2) << 5 | m, rng.randrange(256),
                rng.randrange(256)]
    if r < .93:
        m = rng.choice([1, 2, 3, 4, 4, 5, 6, rng.randrange(8)])
        return [0x62, hi | rng.randrange(8) << 3 | m, rng.randrange(256),
                rng.randrange(256), rng.choice(
                    [rng.randrange(256), 0x24, 0x2c, 0x69, 0x6b, 0x80, 0x81,
                     0x83, 0xc0, 0xc1, 0xf6, 0xf7])]
    p = rng.randrange(256)
    hot = HOT1 if p & 0x80 else HOT0
    return [0xd5, p, rng.choice(hot) if rng.random() < .4 else
            rng.randrange(256)]


def tail(rng, b):
    while len(b) < 20:
        b.append(rng.choice([rng.randrange(256), rng.randrange(256), 0, 0xff,
                             0x80]))
    return b[:20]


def text(rng, mode, b, n=None):
    b = tail(rng, list(b))
    r = rng.random()
    if n is None:
        n = 15 if r < .6 else rng.randrange(0, 16)
    s = "%d:%d:%s" % (mode, n, bytes(b).hex())
    if rng.random() < .25 and n:
        ends = sorted(rng.sample(range(1, 16), rng.randrange(1, 5)))
        if rng.random() < .1:
            ends = list(range(1, 16))
        n = rng.choice([n, n, 20])
        s = "%d:%d:%s:%s" % (mode, n, bytes(b).hex(), ",".join(
            map(str, ends)))
    return s


def systematic(rng, k):
    """Every opcode of every map under every single prefix, k times with some
    addressing form; and every branch with every number of bytes."""
    for mode in (16, 32, 64):
        pfx = [[], [0x66], [0x67], [0xf2], [0xf3], [0x66, 0x67]]
        if mode == 64:
            pfx += [[0x40], [0x48], [0x4f], [0x66, 0x48]]
        for op in ([[x] for x in range(256)] +
                   [[0x0f, x] for x in range(256)] +
                   [[0x0f, y, x] for y in (0x38, 0x3a)
                    for x in range(0, 256)]):
            for p in pfx:
                if len(op) == 3 and len(p) and rng.random() < .8:
                    continue
                for _ in range(k):
                    yield text(rng, mode, p + op + [modrm(rng)], 15)
        for op in [[x] for x in HOT0] + [[0x0f, x] for x in HOT1]:
            for n in range(0, 10):
                yield text(rng, mode, op + [modrm(rng)], n)


def vectors(rng, k):
    for mode in (32, 64):
        for x in range(256):
            for m in (1, 2, 3):
                for _ in range(k):
                    w = rng.randrange(256)
                    yield text(rng, mode, [0xc4, 0xe0 | m, w, x, modrm(rng)],
                               15)
            for m in (1, 2, 3, 4, 5, 6):
                for _ in range(k):
                    w = rng.randrange(256)
                    yield text(rng, mode, [0x62, 0xf0 | m, w | 4,
                                           rng.randrange(256), x,
                                           modrm(rng)], 15)
    for x in range(256):
        for p in range(0, 256, 8):
            yield text(rng, 64, [0xd5, p | rng.randrange(8), x, modrm(rng)],
                       15)


def allmodrm(rng, k):
    """All addressing forms of a few opcodes, with all SIB bytes."""
    for mode in (16, 32, 64):
        for op in rng.sample([[0x8b], [0xff], [0xc7], [0xf7], [0xf6], [0x0f, 1],
                   [0x0f, 0xc7], [0x0f, 0xae], [0x0f, 0x22], [0x0f, 0x1f],
                   [0x69], [0x0f, 0x3a, 0x0f]], k):
            for x in range(256):
                p = rng.choice([[], [], [0x67], [0xf3]])
                yield text(rng, mode, p + op + [x], 15)
        for x in range(256):
            yield text(rng, mode, [0xff, rng.choice([0x14, 0x24, 0x54, 0x94]),
                                   x], 15)


def rnd(rng, n):
    for _ in range(n):
        mode = rng.choice([16, 32, 64, 64])
        p = prefixes(rng, mode)
        o = opcode(rng, mode, bool(p) and rng.random() < .9)
        yield text(rng, mode, p + o + [modrm(rng)])


def noise(rng, n):
    for _ in range(n):
        yield text(rng, rng.choice([16, 32, 64]),
                   [rng.randrange(256) for _ in range(15)])


def hot(rng, rex2):
    """The instructions that matter for the flow under all prefixes."""
    ops = [[x] for x in HOT0] + [[0x0f, x] for x in HOT1[:-2]]
    ops += [[0x0f, 1, x] for x in HOTX] * 2
    ops += [[0x0f, 0xae, 0x20], [0x0f, 0xae, 0xe4], [0x0f, 0xc7, 0x37],
            [0x0f, 0xc7, 0xf5], [0x0f, 0x22, 0xd8], [0x0f, 0x22, 0x1a],
            [0xc7, 0xf8]]
    ops += [[0xff, r << 3 | rng.choice([0, 2, 0xc1])] for r in range(8)]
    for mode in (16, 32, 64):
        for rex in [[]] + ([[x] for x in range(0x40, 0x50)]
                           if mode == 64 else []):
            for rep in ([], [0xf2], [0xf3]):
                for osz in ([], [0x66]):
                    for asz in ([], [0x67]):
                        for op in ops:
                            if asz and rng.random() < .7:
                                continue
                            p = rep + osz + asz
                            rng.shuffle(p)
                            yield text(rng, mode, p + rex + op + (
                                [modrm(rng)] if len(op) < 3 else []), 15)
    for op in ops:
        for p in range(256):
            if rng.random() < rex2:
                yield text(rng, 64, rng.choice([[], [], [0x66], [0xf3]]) + [
                    0xd5, p] + (op[1:] if op[0] == 15 else op) +
                    [modrm(rng)], 15)


def groups(it):
    it = list(it)
    return [" ".join(it[k:k + GROUP]) for k in range(0, len(it), GROUP)]


def run(c):
    rng = c.rng
    total = 0
    counts = {}
    for _ in range(c.n(1, 10)):
        cs = list(systematic(rng, c.n(2, 3)))
        cs += list(vectors(rng, c.n(1, 4)))
        cs += list(allmodrm(rng, c.n(5, 12)))
        cs += list(hot(rng, c.n(15, 100) / 100))
        cs += list(rnd(rng, c.n(30000, 120000)))
        cs += list(noise(rng, c.n(8000, 40000)))
        total += len(cs)
        # a branch that wraps at 4G in 32-bit mode (known finding)
        wrap = ["!32:15:" + x + "00" * 15 for x in ("e9000040bf", "e80000c0ff")]
        for l in check_cases(c, wrap + groups(cs), module="IldTrace", src="ild.c"):
            for g in json.loads(l)["g"]:
                k = g["c"] if g["e"] == "" else g["e"]
                counts[k] = counts.get(k, 0) + 1
    c.notes["instructions"] = total
    c.sample({"cases": wrap[0], "recorded": "see known_findings.txt"})
    for k in range(0, len(cs), len(cs) // 3):
        c.sample({"case": cs[k]})
    # the formats themselves are prefix free
    r = tlc("IldMC", "INIT Init\nNEXT Next\nINVARIANT PrefixFree\n"
            "CONSTANTS ModRMs = {%s}\n Sibs = {%s}\n" % (
                ", ".join(map(str, c.n(
                    [0, 5, 20, 70, 132, 248],
                    range(256)))),
                ", ".join(map(str, c.n([5], [0, 5, 37, 102])))),
            timeout=800, heap="6g")
    if not r.ok:
        raise CheckError("the formats are not prefix free:\n" +
                         r.out[-2000:])
    c.add_tlc(r)
    c.assumptions.append(
        "instruction formats as transcribed in spec/Ild.tla (checked against "
        "a disassembler while it was written); undefined and AMD-only "
        "encodings are not judged; 16-bit branches are not judged for "
        "wrapping")
    c.notes["outcomes"] = counts


main(run, "C18", "exploration")
