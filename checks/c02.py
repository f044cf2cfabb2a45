"""C02: packet decoding of arbitrary bytes is exact, bounded, error-stable."""
from vlib import *
import gen
from pktcheck import check_cases


def hx(b):
    return bytes(b).hex() or "-"


def run(c):
    rng = c.rng
    cases = []

    def add(buf, off=0, cb=None):
        if cb is None:
            cb = "none" if rng.random() < .7 else str(rng.choice(
                [0, 1, 2, 5, 16, len(buf) - off, len(buf) - off + 1, 255, 256,
                 70000, -1, -3, -77]))
        cases.append("D %d %s %s" % (off, cb, hx(buf)))

    def rb(n):
        k = rng.random()
        if k < .4:
            return [rng.randrange(256) for _ in range(n)]
        if k < .6:
            return [rng.choice([0, 0xff, 0x80, 1, 0x7f]) for _ in range(n)]
        if k < .8:
            return [0] * n
        return [0xff] * n

    # every opcode byte, every extended opcode, with every truncation length
    for o in range(256):
        for n in range(0, 18):
            add([o] + rb(n))
    for o in range(256):
        for n in range(0, 18, c.n(1)):
            add([2, o] + rb(n))
    for o in range(256):
        add([2, 0xc3, o] + rb(rng.randrange(0, 10)))
        for m in (0x99, 0xd9):
            for n in (0, 1, 2, 3, 8):
                add([m, o] + rb(n))
    # bytes behind the buffer must not matter: prefix and offsets
    for k in range(c.n(1500, 60000)):
        pre = rb(rng.randrange(0, 6))
        body = rng.choice([rb(rng.randrange(0, 20)),
                           [2, rng.randrange(256)] + rb(rng.randrange(0, 18))])
        buf = pre + body
        add(buf, rng.randrange(0, len(buf) + 2))
    # well-formed packets with every truncation, and with one byte corrupted
    exts = [0x82, 0xa3, 0x43, 0x73, 0x03, 0xc8, 0x62, 0xe2, 0xc2, 0x22, 0xa2,
            0x12, 0x32, 0x52, 0x72, 0x92, 0xb2, 0xd2, 0xf2, 0x13, 0x53, 0x23,
            0xf3, 0x83]
    for e in exts:
        body = ([0x02, 0x82] * 8) if e == 0x82 else [2, e] + rb(12)
        for n in range(2, len(body) + 1):
            add(body[:n])
        for k in range(16 if e == 0x82 else 4):
            x = list(body)
            x[rng.randrange(len(x)) if e != 0x82 else k] ^= 1 << rng.randrange(8)
            add(x)
    # tnt stop bits, tma reserved bits, cyc continuation lengths
    for b in range(48):
        x = [0] * 6
        x[b // 8] |= 1 << (b % 8)
        add([2, 0xa3] + x)
        for j in range(6):
            x[j] |= rng.randrange(256) & ((0xff if j < b // 8 else
                                           (1 << (b % 8)) - 1 if j == b // 8
                                           else 0))
        add([2, 0xa3] + x)
    add([2, 0xa3] + [0] * 6)
    for b in range(40):
        x = [0] * 5
        x[b // 8] |= 1 << (b % 8)
        add([2, 0x73] + x)
    for n in range(0, 16):
        for first in (0x07, 0xff, rng.randrange(32) * 8 + 7):
            for last in (0, 2, 6, 14, 0xfe, 0x1e, 0x3e):
                body = [first] + [rng.choice([1, 0xff,
                                              rng.randrange(256) | 1])
                                  for _ in range(n)] + [last]
                add(body)
                add(body[:-1])
    lines = check_cases(c, cases)
    for k in range(0, len(cases), max(1, len(cases) // 4)):
        c.sample({"case": cases[k], "recorded": lines[k].decode()
                  if k < len(lines) else ""})
    c.assumptions.append("packet layouts as transcribed in spec/Packets.tla; "
                         "opcodes and truncations are enumerated, payloads "
                         "sampled; AddressSanitizer watches the buffer ends")


main(run, "C02", "exploration")
