"""Seeded generators of inputs shared by the checks."""

B64 = [0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000,
       0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffff,
       0x800000000000, 0xffffffffffff, 0x1000000000000, 0x7fffffffffffffff,
       0x8000000000000000, 0xffffffffffffffff, 0xffff800000000000,
       0xffffffff81000000, 0x0123456789abcdef, 0xfedcba9876543210]


def w64(rng):
    k = rng.random()
    if k < .3:
        return rng.choice(B64)
    if k < .5:
        return 1 << rng.randrange(64)
    if k < .6:
        return ((1 << rng.randrange(1, 65)) - 1)
    return rng.getrandbits(rng.randrange(1, 65))


def rand_packet(rng, t):
    """A packet of type t as 'type field=hex ...'."""
    f = {}
    if t in ("fup", "tip", "tip_pge", "tip_pgd"):
        f = {"ipc": rng.randrange(8), "ip": w64(rng)}
    elif t == "tnt_8":
        n = rng.randrange(0, 9)
        f = {"n": n, "bits": rng.getrandbits(n) if n and rng.random() < .85
             else rng.getrandbits(8)}
    elif t == "tnt_64":
        n = rng.choice([0, 1, 2, 7, 8, 46, 47, 48, 49, 63, 64, 70,
                        rng.randrange(1, 48)])
        f = {"n": n, "bits": rng.getrandbits(n) if n and n < 64 and
             rng.random() < .85 else w64(rng)}
    elif t == "mode_exec":
        f = {k: rng.randrange(2) for k in ("csl", "csd", "iflag")}
    elif t == "mode_tsx":
        f = {k: rng.randrange(2) for k in ("intx", "abrt")}
    elif t == "mode_bad":
        f = {"leaf": rng.choice([1, 0x40, 0x60, 0x80, 0xe0, 0x21])}
    elif t == "pip":
        f = {"cr3": w64(rng), "nr": rng.randrange(2)}
    elif t == "vmcs":
        f = {"base": w64(rng)}
    elif t == "cbr":
        f = {"ratio": rng.randrange(256)}
    elif t == "tsc":
        f = {"tsc": w64(rng)}
    elif t == "tma":
        f = {"ctc": rng.getrandbits(16), "fc": rng.choice(
            [0, 1, 0xff, 0x100, 0x1ff, 0x200, 0x8000, 0xffff,
             rng.getrandbits(9), rng.getrandbits(16)])}
    elif t == "mtc":
        f = {"ctc": rng.randrange(256)}
    elif t == "cyc":
        f = {"value": w64(rng)}
    elif t == "mnt":
        f = {"payload": w64(rng)}
    elif t == "exstop":
        f = {"ip": rng.randrange(2)}
    elif t == "mwait":
        f = {"hints": w64(rng) & 0xffffffff, "ext": w64(rng) & 0xffffffff}
    elif t == "pwre":
        f = {"state": rng.randrange(256), "sub_state": rng.randrange(256),
             "hw": rng.randrange(2)}
        if rng.random() < .5:
            f["state"] &= 15
            f["sub_state"] &= 15
    elif t == "pwrx":
        f = {"last": rng.randrange(256), "deepest": rng.randrange(256),
             "int": rng.randrange(2), "store": rng.randrange(2),
             "auto": rng.randrange(2)}
        if rng.random() < .5:
            f["last"] &= 15
            f["deepest"] &= 15
    elif t == "ptw":
        f = {"payload": w64(rng), "plc": rng.choice([0, 1, 0, 1, 2, 3, 4]),
             "ip": rng.randrange(2)}
    elif t == "cfe":
        f = {"type": rng.randrange(64), "vector": rng.randrange(256),
             "ip": rng.randrange(2)}
    elif t == "evd":
        f = {"type": rng.randrange(64), "payload": w64(rng)}
    elif t == "trig":
        f = {"trbv": rng.randrange(256), "icnt": rng.getrandbits(16),
             "ip": rng.randrange(2), "icntv": rng.randrange(2),
             "mult": rng.randrange(2)}
    return " ".join([t] + ["%s=%x" % (k, v) for k, v in f.items()])


TYPES = ["pad", "psb", "psbend", "stop", "ovf", "fup", "tip", "tip_pge",
         "tip_pgd", "tnt_8", "tnt_64", "mode_exec", "mode_tsx", "pip", "vmcs",
         "cbr", "tsc", "tma", "mtc", "cyc", "mnt", "exstop", "mwait", "pwre",
         "pwrx", "ptw", "cfe", "evd", "trig"]
BADTYPES = ["mode_bad", "invalid", "unknown", "badtype"]
SIZE = {"pad": 1, "psb": 16, "psbend": 2, "stop": 2, "ovf": 2, "tnt_8": 1,
        "tnt_64": 8, "mode_exec": 2, "mode_tsx": 2, "pip": 8, "vmcs": 7,
        "cbr": 4, "tsc": 8, "tma": 7, "mtc": 2, "mnt": 11, "exstop": 2,
        "mwait": 10, "pwre": 4, "pwrx": 7, "cfe": 4, "evd": 11}
