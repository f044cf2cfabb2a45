"""C24: the packet dumper shows exactly the packets of the trace."""
import concurrent.futures
import decgen
import ptgen
from ptgen import mutate, rand_bytes_packet, TraceGen
from vlib import *

CFG = "INIT TraceInit\nNEXT TraceNext\n"
#: option name: its argument
OPTS = {"nosync": "--no-sync", "quiet": "--quiet", "nopad": "--no-pad",
        "notiming": "--no-timing", "nocyc": "--no-cyc", "raw": "--raw",
        "lastip": "--lastip", "em": "--exec-mode", "time": "--time",
        "tcal": "--tcal", "delta": "--time-delta", "notcal": "--no-tcal",
        "nowall": "--no-wall-clock", "keep": "--keep-tcal-on-ovf",
        "offset": "--no-offset"}
CPUS = [[6, 78], [6, 158], [6, 85], [6, 143], [6, 61], [6, 92], [6, 15],
        [6, 140]]


def tool(name):
    d = build("tools")
    for p in (os.path.join(d, "bin", name), os.path.join(d, name)):
        if os.path.exists(p):
            return p
    return find_lib(d, name)


class Bad(Exception):
    pass


def execute(argv, cwd):
    """Run a tool; a crash or a hang is the violation Bad."""
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99",
               UBSAN_OPTIONS="exitcode=99:halt_on_error=1")
    try:
        r = subprocess.run(argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=60)
    except subprocess.TimeoutExpired:
        raise Bad("hang")
    if r.returncode < 0 or r.returncode == 99:
        raise Bad("crash: " + r.stderr.decode("latin1")[-1500:])
    return r.returncode, r.stdout, r.stderr


def packets(rng):
    """The packets of a trace and the calibration's configuration."""
    conf = {"mtc": rng.choice([0, 3, 3, 5, 9, 12]), "nom": rng.choice(
        [0, 24, 24, 255]), "eax": rng.choice([0, 2, 2, 1, 3]),
        "ebx": rng.choice([168, 276, 2, 0xffffffff, 0])}
    k = rng.random()
    n = rng.randrange(2, 30)
    if k < .15:     # calibration inside and outside of PSB+
        p = [ptgen.PSB]
        t = rng.getrandbits(30)
        for _ in range(n):
            t += rng.getrandbits(12)
            p.append(rng.choice([
                lambda: ptgen.tsc(t), lambda: ptgen.tsc(t),
                lambda: ptgen.cyc(rng.randrange(1, 4000)),
                lambda: ptgen.cyc(rng.randrange(1, 4000)),
                lambda: ptgen.cbr(rng.choice([8, 24, 30])),
                lambda: ptgen.cbr(rng.choice([8, 24, 30])),
                lambda: rng.choice([ptgen.mtc(t >> 8), ptgen.PAD]),
                lambda: ptgen.OVF, lambda: ptgen.PSB, lambda: ptgen.PSBEND,
                lambda: ptgen.fup(rng.choice([1, 2, 3]), t)])())
    elif k < .3:
        cfg, p = decgen.clock(rng, n)
        for x in cfg.split(","):
            a, v = x.split("=")
            conf[a] = int(v)
    elif k < .55:
        p = TraceGen(rng, chaos=0, timing=rng.choice([0, .2, .4]),
                     events=rng.choice([.1, .5])).trace(n).out
    else:
        g = TraceGen(rng)
        if rng.random() < .9:
            g.psb(en=rng.random() < .5)
        p = g.out
        for _ in range(n):
            if rng.random() < .06:
                if rng.random() < .5:
                    p.append(ptgen.OVF)
                else:
                    g.psb(en=rng.random() < .5)
            x = rand_bytes_packet(rng)
            if len(x) == 1 and rng.random() < .9:
                x = ptgen.PAD
            p.append(x)
    if rng.random() < .3:
        p = mutate(rng, p)
    if rng.random() < .1:
        p = [[rng.randrange(256) for _ in range(rng.randrange(20))]] + p
    return [list(x) for x in p], conf


def options(rng):
    o = dict.fromkeys(OPTS, False)
    o["offset"] = True
    few = rng.random()
    for x in OPTS:
        if x == "offset":
            o[x] = rng.random() < .8
        elif x in ("quiet", "nosync"):
            o[x] = rng.random() < .1
        elif x in ("time", "tcal"):
            pass
        elif few < .3:
            o[x] = rng.random() < .1
        else:
            o[x] = rng.random() < (.6 if x in ("lastip", "em") else .3)
    k = rng.random()
    if k < .4:
        o["time"] = True
    elif k < .65:
        o["tcal"] = True
    if o["notiming"] and rng.random() < .6:
        o["notiming"] = False
    return o


def arguments(rng, o, conf, cpu):
    a = [[OPTS[x]] for x in OPTS if o[x] != (x == "offset")]
    hexa = rng.random() < .3
    for x, arg in (("mtc", "--mtc-freq"), ("nom", "--nom-freq"),
                   ("eax", "--cpuid-0x15.eax"), ("ebx", "--cpuid-0x15.ebx")):
        if conf[x] or rng.random() < .3:
            a.append([arg, hex(conf[x]) if hexa else str(conf[x])])
    if cpu:
        a.append(["--cpu", "%d/%d" % tuple(cpu) +
                  ("/%d" % rng.randrange(16) if rng.random() < .4 else "")])
    elif rng.random() < .1:
        a.append(["--cpu", "none"])
    rng.shuffle(a)
    return [y for x in a for y in x]


def run_dump(c, exe, tmp, k, case):
    """One run of the dumper."""
    name = "t%d" % k
    path = os.path.join(tmp, name)
    with open(path, "wb") as f:
        f.write(bytes(case["file"]))
    try:
        rc, out, err = execute([exe] + case["args"] + [name + case["range"]],
                               tmp)
    except Bad as ex:
        return None, str(ex)
    finally:
        os.unlink(path)
    out = out.decode("latin1")
    lines = out.split("\n")
    tail = lines.pop()
    if tail:
        return None, "incomplete line " + tail
    return {"b": case["b"], "o": case["o"], "cpu": case["cpu"],
            "mtc": case["mtc"], "nom": case["nom"],
            "eax": ptgen.le(case["eax"], 4), "ebx": ptgen.le(case["ebx"], 4),
            "out": lines, "rc": rc}, None


def dumps(c, cases, tmp):
    exe = tool("ptdump")
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        got = list(ex.map(lambda kc: run_dump(c, exe, tmp, *kc),
                          enumerate(cases)))
    lines, kept, tot = [], [], 0
    for case, (r, what) in zip(cases, got):
        if what:
            c.violation("C24: ptdump %s" % what.split(":")[0],
                        {"case": case, "detail": what})
        else:
            lines.append(json.dumps(r))
            kept.append(case)
            tot += len(r["out"])
    for at in range(0, len(lines), 4000):
        part, cs = lines[at:at + 4000], kept[at:at + 4000]
        bad = validate(c, "PtDumpTrace", part, CFG, deadlock=True,
                       cases=[json.dumps(x) for x in cs])
        for idx, st in bad:
            again, _ = run_dump(c, exe, tmp, 0, cs[idx])
            c.violation("C24: PtDump does not print this: %s" %
                        " ".join(cs[idx]["args"]),
                        {"case": cs[idx], "recorded": json.loads(part[idx]),
                         "reproduced": json.dumps(again) == part[idx],
                         "spec_state": st})
        if bad:
            return
    c.cov["lines_explained"] = tot


def dump_cases(c):
    rng = c.rng
    cases = []
    for _ in range(c.n(2500, 40000)):
        p, conf = packets(rng)
        b = [x for y in p for x in y][:rng.choice([200, 320, 420])]
        if not b:
            continue
        o = options(rng)
        cpu = rng.choice(CPUS) if rng.random() < .25 else []
        case = dict(conf, b=b, o=o, cpu=cpu, file=b, range="",
                    args=arguments(rng, o, conf, cpu))
        if rng.random() < .15:
            pre = [rng.randrange(256) for _ in range(rng.randrange(1, 20))]
            fmt = rng.choice(["%d", "0x%x"])
            case["file"] = pre + b
            case["range"] = ":" + fmt % len(pre)
            if rng.random() < .6:
                case["file"] = case["file"] + \
                    [rng.randrange(256) for _ in range(rng.randrange(5))]
                case["range"] += "-" + fmt % (len(pre) + len(b))
        cases.append(case)
    return cases


SEGCFG = "INIT Init\nNEXT Next\nINVARIANT Conforms\n" \
    "CHECK_DEADLOCK FALSE\n"


def seg_trace(rng):
    """Sync points, whole, cut, adjacent, and what lies between them."""
    b = []
    for _ in range(rng.randrange(6)):
        k = rng.random()
        if k < .55:
            b += ptgen.PSB
        elif k < .7:
            b += ptgen.PSB[:rng.randrange(16)]
        elif k < .75:
            b += ptgen.PSB[rng.randrange(16):]
        for _ in range(rng.randrange(4)):
            b += rng.choice([lambda: ptgen.PAD * rng.randrange(12),
                             lambda: [2, 0x82] * rng.randrange(3),
                             lambda: [2], lambda: [0x82],
                             lambda: rand_bytes_packet(rng)])()
    return b


def seg_cases(c):
    rng = c.rng
    cases = []
    for _ in range(c.n(60, 1500)):
        b = seg_trace(rng)
        if not b:
            continue
        offs = set(range(len(b) + 2)) if rng.random() < .3 else \
            {rng.randrange(len(b) + 2) for _ in range(20)}
        offs |= {x + d for x in range(len(b) - 15)
                 if b[x:x + 16] == ptgen.PSB for d in (0, 1, 15, 16)}
        for off in sorted(offs):
            cases.append({"tool": "ptseg", "k": "seg", "b": b, "off": off,
                          "args": ["FILE:" + rng.choice(["%d", "0x%x"]) %
                                   off]})
    b = ptgen.PSB + ptgen.PSBEND + ptgen.PSB

    def case(t, k, *a):
        cases.append({"tool": t, "k": k, "b": b, "off": 0, "args": list(a)})
    for a in ([], ["--none", "FILE:0"], ["FILE"], [":0"], ["FILE:x"],
              ["FILE:0", "FILE:0"], ["missing:0"], ["FILE:0x"],
              ["FILE:99999999999999999999"], ["FILE:0xffffffffffffffff"]):
        case("ptseg", "bad", *a)
    for t in ("ptseg", "ptdump"):
        for a in ("--help", "-h", "--version"):
            case(t, "text", a)
    for a in ([], ["--none", "FILE"], ["missing"], ["FILE", "FILE"],
              ["--time", "--tcal", "FILE"], ["--tcal", "--time", "FILE"],
              ["--cpu"], ["--cpu", "x", "FILE"], ["--cpu", "6", "FILE"],
              ["--cpu", "6/", "FILE"],
              ["--mtc-freq", "256", "FILE"], ["--nom-freq", "300", "FILE"],
              ["--nom-freq", "x", "FILE"], ["--nom-freq", "3x", "FILE"],
              ["--cpuid-0x15.eax", "0x100000000", "FILE"],
              ["--cpuid-0x15.ebx", "0x100000000", "FILE"],
              ["--cpuid-0x15.ebx", "--raw", "FILE"], ["--mtc-freq"],
              ["FILE:34"], ["FILE:100"], ["FILE:0-35"], ["FILE:5-5"],
              ["FILE:5-2"], ["FILE:0-0xffffffffffffffff"],
              ["FILE:0xfffffffffffffff0"], ["--raw"]):
        case("ptdump", "bad", *a)
    return cases


def run_seg(tmp, k, case):
    name = "s%d" % k
    path = os.path.join(tmp, name)
    with open(path, "wb") as f:
        f.write(bytes(case["b"]))
    try:
        rc, out, err = execute([tool(case["tool"])] + [
            a.replace("FILE", name) for a in case["args"]], tmp)
    except Bad as ex:
        return None, str(ex)
    finally:
        os.unlink(path)
    return {"k": case["k"], "b": case["b"], "off": case["off"], "rc": rc,
            "out": out.decode("latin1").splitlines()}, None


def segs(c, cases, tmp):
    tool("ptseg")
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        got = list(ex.map(lambda kc: run_seg(tmp, *kc), enumerate(cases)))
    lines, kept = [], []
    for case, (r, what) in zip(cases, got):
        if what:
            c.violation("C24: %s %s" % (case["tool"], what.split(":")[0]),
                        {"case": case, "detail": what})
        else:
            lines.append(json.dumps(r))
            kept.append(case)
    for idx, st in validate(c, "PtSegTrace", lines, SEGCFG,
                            cases=[json.dumps(x) for x in kept]):
        again, _ = run_seg(tmp, 0, kept[idx])
        c.violation("C24: %s %s" % (kept[idx]["tool"],
                                    " ".join(kept[idx]["args"])),
                    {"case": kept[idx], "recorded": json.loads(lines[idx]),
                     "reproduced": json.dumps(again) == lines[idx],
                     "spec_state": st})


def run(c):
    tmp = tmpdir()
    segs(c, seg_cases(c), tmp)
    dumps(c, dump_cases(c), tmp)


if __name__ == "__main__":
    main(run, "C24", "exploration")
