"""C17: perf event records and times.

pev.c writes and reads records and converts times; Pevent.tla says what has
to come out of it.
"""
import struct
from vlib import *
from pktcheck import check_cases

LAYOUT = {1: "IIQQQ", 2: "QQ", 3: "II", 4: "IIIIQ", 5: "QQQ", 6: "QQQ",
          7: "IIIIQ", 10: "IIQQQIIQQII", 11: "QQQ", 12: "II", 13: "Q",
          14: "", 15: "II"}
STR = (1, 3, 10)
SAMPLES = [("tid", 1, "II"), ("time", 2, "Q"), ("id", 6, "Q"),
           ("sid", 9, "Q"), ("cpu", 7, "II"), ("ident", 16, "Q")]
EDGE = [0, 1, 2, 0x7f, 0x80, 0xff, 0x7fffffff, 0x80000000, 0xffffffff,
        0x100000000, 2**63 - 1, 2**63, 2**64 - 2, 2**64 - 1]


def num(rng, bits):
    r = rng.random()
    if r < .3:
        return rng.choice(EDGE) & (2**bits - 1)
    return rng.getrandbits(rng.choice([4, 8, 16, bits, bits]))


class Cfg:
    def __init__(self, rng, st=None):
        self.kind = rng.choices("fisn", (12, 3, 1, 1))[0]
        self.st = st
        self.shift = rng.choice([0, 1, 8, 10, 20, 31, 32, 33, 47, 63])
        self.mult = rng.choice([0, 1, 2, 3, 10**6, 2**31, 2**32 - 1,
                                num(rng, 32), num(rng, 32)])
        self.zero = rng.choice([0, 1, 10**6, num(rng, 64), 2**64 - 1])
        self.ids = []

    def text(self):
        return ",".join(["%s,%x,%x,%x,%x" % (self.kind, self.st, self.shift,
                                             self.mult, self.zero)] +
                        ["%x:%x" % x for x in self.ids])

    def sane(self, rng):
        if rng.random() < .9:
            self.mult = self.mult or 1
            if self.kind in "sn":
                self.kind = "f"
        return self


def stype(names):
    return sum(1 << b for n, b, _ in SAMPLES if n in names)


def record(rng, t=None):
    t = t if t is not None else rng.choice(list(LAYOUT))
    f = [num(rng, 32 if x == "I" else 64) for x in LAYOUT[t]]
    s = b""
    if t in STR:
        n = rng.choice([0, 1, 6, 7, 8, 9, 15, 16, 17, rng.randrange(60)])
        s = bytes(rng.randrange(1, 256) for _ in range(n))
    return t, rng.choice([0, 1, 2, 1 << 13, 1 << 14, 0xffff]), f, s


def samples(rng, names):
    return [(n, [num(rng, 32 if x == "I" else 64) for x in w])
            for n, _, w in SAMPLES if n in names]


def encode(rec, sm):
    t, misc, f, s = rec
    b = struct.pack("<" + LAYOUT[t], *f)
    if t in STR:
        s = s + b"\0"
        b += s + b"\0" * (-len(s) % 8)
    for n, v in sm:
        b += struct.pack("<" + dict((x, w) for x, _, w in SAMPLES)[n], *v)
    return struct.pack("<IHH", t, misc, 8 + len(b)) + b


def pick(rng, prob=.5):
    return {n for n, _, _ in SAMPLES if rng.random() < prob}


def ids(rng, cfg, names, sm):
    """Have the sample type depend on the identifier."""
    st = cfg.st
    val = dict(sm).get("ident")
    for _ in range(rng.randint(1, 4)):
        cfg.ids.append((num(rng, 64), stype(pick(rng)) |
                        (1 << 16) * (rng.random() < .9)))
    if val is not None and rng.random() < .8:
        cfg.ids.insert(rng.randrange(len(cfg.ids) + 1), (val[0], st))
        if rng.random() < .7:
            cfg.st = stype(pick(rng))


def common(rng, t=None, names=None):
    rec = record(rng, t)
    if names is None:
        names = pick(rng, rng.choice([.3, .5, .8]))
    cfg = Cfg(rng, stype(names)).sane(rng)
    sm = samples(rng, names)
    if rng.random() < .3:
        ids(rng, cfg, names, sm)
    return rec, names, cfg, sm


def wcase(rng, rec, cfg, sm, room=None, names=None):
    n = len(encode(rec, sm)) if rec[0] in LAYOUT else 64
    if room is None:
        room = rng.choice([n, n, n, n, n + 1, n + 40, n - 1, n - 8,
                           rng.randrange(n)])
    if rng.random() < .06:
        cfg.st ^= 1 << rng.choice([0, 1, 2, 6, 7, 9, 16])
    t, misc, f, s = rec
    return "w %s %d %d %x %s %s %s" % (
        cfg.text(), room, t, misc, ",".join("%x" % x for x in f) or "-",
        s.hex() or "-",
        ",".join("%s=%s" % (n, ":".join("%x" % x for x in v))
                 if n == "tid" else "%s=%x" % (n, v[0])
                 for n, v in sm) or "-")


def cases(c):
    rng, out = c.rng, []
    # every type with every set of samples
    names = [n for n, _, _ in SAMPLES]
    for t in LAYOUT:
        for m in range(64):
            ns = {n for k, n in enumerate(names) if m >> k & 1}
            rec, ns, cfg, sm = common(rng, t, ns)
            out.append(wcase(rng, rec, cfg, sm, len(encode(rec, sm))))
    for _ in range(c.n(1500, 12000)):
        rec, ns, cfg, sm = common(rng)
        out.append(wcase(rng, rec, cfg, sm))
    # types that are not supported, and records that get too big
    for t in (0, 8, 9, 16, 17, 1000, 2**31):
        rec, ns, cfg, sm = common(rng, 14)
        out.append(wcase(rng, (t,) + rec[1:], cfg, sm))
    for t, n in ((1, 65400), (10, 65535), (3, 65535 - 16), (3, 65534 - 16),
                 (1, 3000), (3, 2000), (3, 65535 - 8 - 8 - 8)):
        rec, ns, cfg, sm = common(rng, t)
        rec = rec[:3] + (bytes(rng.randrange(1, 256) for _ in range(n)),)
        size = 8 + len(rec[3]) + 200
        t, misc, f, s = rec
        out.append("w %s %d %d %x %s %s -" % (
            Cfg(rng, 0).text().replace("n,", "f,"), size, t, misc,
            ",".join("%x" % x for x in f), s.hex()))
    # reading: whole, truncated, with something behind, and damaged
    for _ in range(c.n(2500, 20000)):
        rec, ns, cfg, sm = common(rng)
        b = encode(rec, sm)
        r = rng.random()
        if r < .25:
            b += bytes(rng.randrange(256) for _ in range(rng.choice([1, 8,
                                                                     40])))
        elif r < .5:
            b = b[:rng.randrange(len(b))]
        elif r < .8:
            b = bytearray(b)
            n = rng.choice([0, 7, 8, 9, 16, 24, len(b) - 8, len(b) - 1,
                            len(b) + 1, len(b) + 8, rng.randrange(len(b)),
                            0xffff])
            b[6:8] = struct.pack("<H", max(0, n))
            if rng.random() < .5:
                b = b[:n] if n >= 8 else b
            b = bytes(b)
        elif r < .9:
            b = bytearray(b)
            for _ in range(rng.choice([1, 1, 3])):
                b[rng.randrange(len(b))] = rng.choice([0, 1, 0xff])
            b = bytes(b)
        elif rec[0] in STR:
            b = b.replace(b"\0", b"\1") if rng.random() < .3 else \
                b[:8] + bytes(x or 1 for x in b[8:])
        out.append("r %s %s" % (cfg.text(), b.hex() or "-"))
    # every prefix of some records
    for t in LAYOUT:
        rec, ns, cfg, sm = common(rng, t)
        b = encode(rec, sm)
        for n in range(len(b) + 1):
            out.append("r %s %s" % (cfg.text(), b[:n].hex() or "-"))
            if n >= 8:
                out.append("r %s %s" % (cfg.text(), (
                    b[:6] + struct.pack("<H", n) + b[8:n]).hex()))
    for _ in range(c.n(1200, 10000)):
        cfg = Cfg(rng, 0)
        if rng.random() < .9:
            cfg.kind = "f"
        out.append("%s %s %x" % (rng.choice("tf"), cfg.text(), num(rng, 64)))
    return out


def run(c):
    cs = cases(c)
    lines = check_cases(c, cs, module="PeventTrace", src="pev.c", sb=True)
    c.cov["traces_validated_against_impl"] = len(lines)
    c.cov["rule"] = ("one call, or one write followed by a read, per case; "
                     "all record types with all sets of samples, all "
                     "prefixes and claimed sizes of one record of each type")
    for k in (0, len(cs) // 3, len(cs) // 2, len(cs) - 1):
        c.sample(cs[k][:200])
    r = tlc("PeventMC", "INIT Init\nNEXT Next\nINVARIANT Inverse\n",
            simulate=c.n(3000, 100000), depth=2, seed=c.seed, timeout=600)
    if not r.ok:
        raise CheckError("the time formula is not inverted:\n" +
                         r.out[-2000:])
    c.add_tlc(r)


if __name__ == "__main__":
    main(run, "C17", "exploration")
