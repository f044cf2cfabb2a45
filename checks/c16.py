"""C16: perf event sideband selects the running process's memory image.

Generated sideband channels and trace events go through the real sideband
library; what is selected, what the images contain and what is notified are
judged by SbPevent.tla, which decodes the channels' bytes itself.
"""
import random
from vlib import *
from pktcheck import drive
from c17 import LAYOUT, STR, SAMPLES, encode, stype

WRAP = tuple("-Wl,--wrap=" + x for x in
             ("malloc", "calloc", "realloc", "strdup", "free"))
KERNEL = 0x40000000
PIDS = [0, 1, 7, 0x10, 0x1234, 0xfffffffe]
EVS = ("enabled disabled async_disabled async_branch paging async_paging "
       "overflow exec_mode tsx stop vmcs async_vmcs exstop mwait pwre pwrx "
       "ptwrite tick cbr mnt tip tnt iflags interrupt iret smi rsm init "
       "vmentry vmexit shutdown uintr uiret").split()


def elf(cls, mach, n):
    h = bytearray(b"\x7fELF" + bytes([cls, 1, 1]) + bytes(9))
    h += struct_pack(2) + struct_pack(mach)
    return bytes(h) + bytes([1] * 40), n


def struct_pack(x):
    return x.to_bytes(2, "little")


LONG = "/." * 2020
# name, size, first bytes
POOL = [("f1", 300, b""), ("f2", 64, b""), ("f3", 1000, b""),
        ("e64",) + elf(2, 62, 400)[::-1], ("e32",) + elf(1, 3, 300)[::-1],
        ("ex32",) + elf(1, 62, 300)[::-1], ("eodd",) + elf(1, 40, 200)[::-1],
        ("eshort", 40, elf(1, 3, 0)[0][:40]),
        ("etiny", 10, elf(2, 62, 0)[0][:10]),
        ("ebad", 100, b"\x7fELF\2\1\2" + bytes(40)),
        ("v64",) + elf(2, 62, 128)[::-1], ("vx32",) + elf(1, 62, 128)[::-1],
        ("v32",) + elf(1, 3, 128)[::-1],
        ("root/f1", 200, b""), ("root/e64",) + elf(2, 62, 222)[::-1],
        ("root/b", 80, b""), ("k1", 600, b""), ("k2", 256, b"")]
FIDX = {n: k + 1 for k, (n, _, _) in enumerate(POOL)}


def content(k, size, hdr):
    return bytes(hdr[o] if o < len(hdr) else
                 (k * 101 + o * 7 + (o // 256) * 13) % 256
                 for o in range(size))


def write_pool(d):
    os.makedirs(os.path.join(d, "root"), exist_ok=True)
    for k, (n, size, hdr) in enumerate(POOL):
        with open(os.path.join(d, n), "wb") as f:
            f.write(content(k + 1, size, hdr))


def jfiles():
    return [{"name": list(n.encode()), "size": s, "hdr": list(h[:s])}
            for n, s, h in POOL]


def w64(v):
    return list(v.to_bytes(8, "little"))


class Case:
    pass


def map_rec(rng, pids, root):
    t = rng.choice([1, 10, 10])
    r = rng.random()
    special = ["[vdso]", "[vdso]", "[heap]", "[stack]", "[vdso2]", "//anon",
               "//anon2", "f1 (deleted)", "/x (deleted) y", "[", ""]
    plain = ["/f1", "/e64", "/b"] if root else \
        ["f1", "f2", "f3", "e64", "e32", "ex32", "eodd", "eshort", "etiny",
         "ebad"]
    if r < .2:
        name = rng.choice(special[:-1] if root else special)
    elif r < .24:
        name = rng.choice(["nofile", "no/dir", "f1x", "/f", "x[vdso]"])
    elif r < .25 and root:
        k = rng.choice([0, 1, 2])
        name = ("/." * 3000)[:4095 - len(root) - 2 - k] + "/b" + "xyz"
    else:
        name = rng.choice(plain)
    off = rng.choice([0, 0, 0, 8, 16, 50, 100, 300, 1000])
    size = rng.choice([1, 8, 16, 64, 100, 256, 1024, 4096])
    addr = rng.choice([0x1000, 0x1010, 0x1040, 0x1100, 0x2000, 0x2080,
                       0x3000, KERNEL - 64, KERNEL, KERNEL + 0x20])
    f = [rng.choice(pids), rng.choice(pids), addr, size, off]
    if t == 10:
        f += [8, 1, 77, 5, 5, 2]
    return t, rng.choice([2, 2, 2, 2, 0, 3, 1, 0x2002, 0x2001]), f, \
        name.encode()


def record(rng, pids, root, weird):
    r = rng.random()
    if r < .42:
        return map_rec(rng, pids, root)
    p, q = rng.choice(pids), rng.choice(pids)
    if r < .52:
        return 7, 0, [p, q, p if rng.random() < .93 or p == q else q, q, 5], \
            b""
    if r < .62:
        return 3, rng.choice([0x2000, 0x2000, 0x2002, 0, 2]), [p, p], \
            rng.choice([b"cat", b"", b"seven77", b"eight888"])
    if r < .66:
        return 4, 0, [p, q, p, q, 9], b""
    if r < .78:
        return 14, rng.choice([0, 0, 0, 0x2000, 0x6000]), [], b""
    if r < .88:
        return 15, rng.choice([0, 0x2000, 0x2000, 0x6000]), [p, p], b""
    if r < .92:
        return 12, 0, [p, p], b""
    if r < .94:
        return 2, 0, [1, 2], b""
    if r < .98:
        return 11, 0, [0, 64, rng.choice([0, 0, 1, 2, 3])], b""
    return rng.choice([(13, 0, [1], b""), (5, 0, [1, 2, 3], b""),
                       (6, 0, [1, 2, 3], b"")])


def garble(rng, b):
    """A record that cannot be read."""
    return rng.choice([
        b[:6] + (4).to_bytes(2, "little") + b[8:],       # too small
        b[:-1], b[:7],                                   # truncated
        bytes(4) + b[4:],                                # type 0
        (3).to_bytes(4, "little") + bytes(2) + (24).to_bytes(2, "little") +
        b"x" * 16,                                       # string without end
    ])


def mk(rng):
    c = Case()
    pids = rng.sample(PIDS, rng.choice([2, 3, 3, 4]))
    nch = rng.choice([1, 1, 1, 2, 2, 3])
    shift, mult, zero = rng.choice([(0, 1, 0), (0, 1, 0), (3, 10, 1000),
                                    (10, 0x7fffffff, 2**63), (1, 3, 0)])
    chs, toks = [], []
    weird = nch == 1 and rng.random() < .2
    tbase = rng.choice([1, 1000, 2**33])
    for d in range(nch):
        names = {n for n, _, _ in SAMPLES
                 if rng.random() < dict(tid=.9, time=1, id=.2, sid=.2,
                                        cpu=.4, ident=.4)[n]}
        if rng.random() < .05:
            names.discard("time")
        toff = 0
        if rng.random() < .3:
            toff = rng.choice([1, 5, 8 << shift, 2**62, 2**63, 2**63 - 1,
                               2**64 - 1, 2**64 - 8, 2**64 - 2**40]
                              if nch == 1 else [1, 3, 2**64 - 2])
        chs.append(dict(names=names, root=rng.choice([None, None, "root"]),
                        toff=toff & (2**64 - 1), recs=[], data=b"",
                        prim=d == 0 if rng.random() < .97 else False,
                        begin=0, kernel=rng.choice(
                            [KERNEL, KERNEL, KERNEL, 2**64 - 1, 0]),
                        v64=rng.choice(["v64", "v64", None, "nofile"]),
                        vx32=rng.choice(["vx32", None]),
                        v32=rng.choice(["v32", None]), exists="f",
                        ids=rng.random() < .1 and "ident" in names))
    if sum("time" not in x["names"] for x in chs) > 1:
        for x in chs[1:]:
            x["names"].add("time")
    tick, used, times = 1, set(), []
    for k in range(rng.choice([1, 3, 8, 15, 25])):
        d = rng.randrange(nch) if rng.random() < .6 else 0
        x = chs[d]
        tick += rng.choice([1, 1, 2, 5])
        t = tbase + tick
        if weird and rng.random() < .3:
            t = rng.choice([t, 2**64 - 1 >> shift, (2**64 >> shift) - 2,
                            2**63 >> shift, 0 if shift == 0 else t])
        rem = rng.randrange(mult) if shift else 0
        time = (zero + t * mult + rem) & (2**64 - 1)
        tsc = (t << shift) + (rem << shift) // mult
        if time == 0:
            tsc = 0
        o = x["toff"]
        tsc = max(0, tsc - o) if o < 2**63 else min(2**64 - 1,
                                                    tsc + 2**64 - o)
        tsc &= 2**64 - 1
        if nch > 1 and tsc in used:
            continue
        used.add(tsc)
        times.append(tsc)
        rec = record(rng, pids, x["root"], weird)
        if k == 0 and rng.random() < .6:
            rec = (12, 0, [pids[0], pids[0]], b"")
        sm = []
        for n, _, w in SAMPLES:
            if n not in x["names"]:
                continue
            p = rng.choice(pids)
            sm.append((n, dict(tid=[p, p], time=[time], ident=[77 + d],
                               cpu=[0, 0]).get(n) or
                       [rng.getrandbits(64)]))
        b = encode(rec, sm)
        if rng.random() < .03:
            b = (rng.choice([8, 9, 16, 40])).to_bytes(4, "little") + b[4:]
        x["recs"].append(b)
    for x in chs:
        x["data"] = b"".join(x["recs"])
        if x["recs"] and rng.random() < .12:
            x["data"] += garble(rng, x["recs"][-1])
            if rng.random() < .5:
                x["data"] += x["recs"][-1]
        x["end"] = 0
        x["pre"] = b""
        x["bad"] = ""
        if x["data"] and rng.random() < .2:
            x["pre"] = bytes(rng.choice([1, 8, 24]))
            if rng.random() < .5:
                x["end"] = len(x["pre"]) + len(x["data"]) + rng.choice(
                    [0, 0, 100, -1, -8])
                if x["end"] <= len(x["pre"]):
                    x["end"] = 0
        if rng.random() < .04:
            k = rng.choice(["file", "null", "range"])
            if k == "file":
                x["exists"], x["bad"] = "n", "bad_file"
            elif k == "null":
                x["exists"], x["bad"] = "-", "invalid"
            else:
                x["pre"], x["end"], x["bad"] = b"abc", rng.choice([2, 3]), \
                    "invalid"
        elif rng.random() < .04:
            w = rng.choice(["root", "v64", "vx32", "v32"])
            x[w] = "r" * rng.choice([4096, 5000])
            x["bad"] = "invalid"
    probes = sorted({rng.choice([0x1000, 0x1010, 0x1040, 0x1100, 0x2000,
                                 0x2080, 0x3000, KERNEL - 64, KERNEL,
                                 KERNEL + 0x20, KERNEL + 0x40]) +
                     rng.choice([0, 0, 1, 7, 15, 40, 63, 64, 90, 255, 256])
                     for _ in range(10)})
    c.mode = rng.choice([1, 1, 1, 2, 0])
    c.sw, c.swfail = rng.random() < .9, rng.choice([0, 0, 0, 1, 2])
    toks += ["m%d" % c.mode, "p" + ",".join("%x" % p for p in pids),
             "P" + ",".join("%x" % p for p in probes)]
    if not c.sw:
        toks.append("W")
    elif c.swfail:
        toks.append("w%d" % c.swfail)
    if rng.random() < .5:
        toks.append("I")
    c.chs = []
    for x in chs:
        st = stype(x["names"])
        ids = [(77 + k, st) for k in range(nch)] + [(3, 1 << 16)]
        x["st"], x["ids"] = (st, ids if x["ids"] else [])
        if x["ids"]:
            x["st"] = rng.choice([st, 0, 1 << 16])
        toks.append("C" + ";".join([
            "1" if x["prim"] else "0", "%d" % len(x["pre"]), "%d" % x["end"],
            ",".join(["%x,%x,%x,%x" % (x["st"], shift, mult, zero)] +
                     ["%x:%x" % y for y in x["ids"]]),
            "%x" % x["toff"], "%x" % x["kernel"], x["root"] or "-",
            x["v64"] or "-", x["vx32"] or "-", x["v32"] or "-",
            (x["pre"] + x["data"]).hex() or "-", x["exists"]]))
        end = x["end"] or len(x["pre"] + x["data"])
        c.chs.append({
            "bs": list((x["pre"] + x["data"])[len(x["pre"]):end]),
            "off": len(x["pre"]), "prim": int(x["prim"]), "bad": x["bad"],
            "kernel": w64(x["kernel"]), "toff": w64(x["toff"]),
            "root": [list(x["root"].encode())] if x["root"] else [],
            "x64": [list(x["v64"].encode())] if x["v64"] else [],
            "x32": [list(x["vx32"].encode())] if x["vx32"] else [],
            "ia32": [list(x["v32"].encode())] if x["v32"] else [],
            "cfg": {"st": w64(x["st"]), "shift": shift, "mult": w64(mult),
                    "zero": w64(zero), "has": ["st", "time"] +
                    (["ids"] if x["ids"] else []),
                    "ids": [{"id": w64(a), "st": w64(b)}
                            for a, b in x["ids"]]}})
    for n in rng.sample(["k1", "k2"], rng.choice([0, 1, 2])):
        toks.append("K%x,%x,%x,%x,%s" % (
            FIDX[n], rng.choice([0, 16]), rng.choice([64, 128, 1000]),
            KERNEL + rng.choice([0, 0x20, 0x40, 0x100]), n))
    left = list(range(1, nch + 1))
    late = left.pop() if nch > 1 and rng.random() < .1 else None
    for d in left:
        toks.append("a%d%s" % (d, "!%d" % rng.randrange(8)
                               if rng.random() < .05 else ""))
    toks.append("n")
    # the trace
    ts = sorted(times)
    cur, t = 0, 0
    pr = rng.random() < .5
    allt = sorted(set(ts + [max(0, x - 1) for x in ts] +
                      [min(2**64 - 1, x + 1) for x in ts] + [0, 1]))
    if rng.random() < .8:
        allt.append(min(2**64 - 1, (ts[-1] if ts else 5) + 5))
    step = rng.choice([1, 2, 4])
    while cur < len(allt):
        if late and rng.random() < .2:
            toks += ["a%d" % late, "n"]
            late = None
        ty = rng.choice([0, 0, 1, 1, 2, 3, 3, 4, 5, 6, 20]) \
            if rng.random() < .6 else rng.randrange(len(EVS))
        ips = [0x1000, 0x2000, 0, KERNEL - 1, KERNEL, KERNEL + 4,
               0xffffffff81000000]
        if rng.random() < .06:
            toks.append("%s%x" % (rng.choice("qqgr"), rng.choice(pids)))
        pf = rng.choice([0, 1, 2, 0]) | 4 * rng.randrange(8)
        if rng.random() < .03:
            toks.append("d%x,%x" % (pf, allt[cur]))
            if rng.random() < .5:
                continue
        toks.append("e%x,%x,%x,%d,%x,%d" % (
            ty, allt[cur], rng.choice(ips), rng.random() < .3,
            rng.choice(ips), rng.random() < .8))
        if pr:
            toks[-1] += ",%x" % pf
        if rng.random() < .1 and cur:
            pass                     # again, at the same time
        else:
            cur += rng.randint(0, step)
        if len(toks) > 120:
            break
    toks += ["q%x" % p for p in pids] + ["Z"]
    c.line = " ".join(toks)
    c.pids, c.probes = [w64(p) for p in pids], probes
    return c


NUMS = {"MMAP": 5, "COMM": 2, "MMAP2": 11}
REC = re.compile(r"([A-Z_0-9.]+)(?:  (.*?))?  \{(.*) \}$", re.S)


def printed(text, fl):
    """What has been printed, by its parts."""
    out = []
    for line in text.split("\n")[:-1]:
        if line.startswith("  ") and out:
            k, v = re.fullmatch(r"  ([a-z_ ]+): (.*)", line).groups()
            if k in ("filename", "comm"):
                out[-1]["str"] = list(v.encode())
            else:
                out[-1]["named"].append([k, w64(int(v, 16))])
            continue
        r = dict(d=[], off=[], tsc=[], name="", str=[], vals=[], ss=[],
                 named=[])
        out.append(r)
        if fl & 4:
            d, line = re.match(r"ch(\d+)(?:  |:)(.*)", line, re.S).groups()
            r["d"] = [int(d)]
        if fl & 8:
            r["off"], line = [int(line[:16], 16)], line[18:]
        if fl & 16 and re.match("[0-9a-f]{16}  ", line):
            r["tsc"], line = [w64(int(line[:16], 16))], line[18:]
        if fl & 2:
            r["name"], line = line, ""
        if fl & 1:
            if line.startswith("UNKNOWN ("):
                line = line.replace("UNKNOWN (", "UNKNOWN  ") \
                    .replace(")", "", 1)
            name, body, ss = REC.fullmatch(line).groups()
            r["name"] = name
            v = re.split("[/,] ?", body, NUMS.get(
                name[12:].split(".")[0], 99)) if body else []
            if name[12:].split(".")[0] in NUMS:
                # a path begins with the separator
                m = re.match("(?:[0-9a-f]+(?:, |/)){%d}" %
                             NUMS[name[12:].split(".")[0]], body)
                r["str"] = list(body[m.end():].encode())
                v = re.split(", |/", m.group(0))[:-1]
            r["vals"] = [w64(int(x, 16)) for x in v]
            r["ss"] = [w64(int(x.replace("cpu-", ""), 16))
                       for x in re.split("[ /]", ss) if x]
        if r["name"].startswith("PERF_RECORD_"):
            r["name"] = r["name"][12:]
        elif r["name"] == "UNKNOWN":
            r["name"] = ""
        elif line:
            raise ValueError(line)
    return out


def merge(c, line):
    rec = json.loads(line)
    for o in rec["ops"]:
        if "text" in o:
            text = bytes(o.pop("text")).decode()
            try:
                o["out"] = printed(text, o["pf"])
            except (AttributeError, ValueError):
                o["out"] = [{"text": text}]
    return json.dumps({
        "chs": c.chs, "files": jfiles(), "pids": c.pids, "probes": c.probes,
        "mode": ["none", "go", "stop"][c.mode], "sw": int(c.sw),
        "swfail": c.swfail, "ops": rec["ops"]}).encode()


def run(c):
    rng = c.rng
    exe = harness("sbpev.c", "asan", sb=True, link=WRAP)
    d = os.path.join(tmpdir(), "sb")
    write_pool(d)
    n, ops = c.n(3000, 40000), 0
    for a in range(0, n, 3000):
        cs = [mk(rng) for _ in range(min(3000, n - a))]
        cases = [x.line for x in cs]
        out = drive(c, exe, cases, args=[d])
        if len(out) < len(cases):
            return
        lines = [merge(x, y) for x, y in zip(cs, out)]
        ops += sum(y.count(b'"k": "event"') for y in lines)
        for idx, st in validate(c, "SbPevTrace", lines,
                                "INIT TraceInit\nNEXT TraceNext\n",
                                cases=cases, deadlock=True):
            m = re.search(r"/\\ k = (\d+)", st)
            k = int(m.group(1)) if m else 0
            rec = json.loads(lines[idx])
            again = run_driver(exe, [d], (cases[idx] + "\n").encode())
            c.violation("C16: operation %d is not allowed by SbPevent: %s" %
                        (k + 1, json.dumps(rec["ops"][k] if k <
                                           len(rec["ops"]) else {})[:400]),
                        {"case": cases[idx], "driver": "sbpev.c", "op": k + 1,
                         "ops": rec["ops"], "reproduced":
                         again.strip() == out[idx].strip(),
                         "spec_state": st[:6000], "meta": merge(cs[idx], out[idx]).decode()})
        for k in range(0, len(cases), max(1, len(cases) // 2)):
            c.sample({"case": cases[k][:500], "recorded":
                      out[k].decode()[:400]}, 4)
        if c.viol:
            break
    c.cov["events"] = ops
    c.assumptions.append("addresses below 2^31; one primary channel; record "
                         "times of several channels differ")


if __name__ == "__main__":
    main(run, "C16", "exploration")
