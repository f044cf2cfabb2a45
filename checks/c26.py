"""C26: process contexts of sideband sessions.

sbctx.c records uses of a session's contexts; SbCtxTrace.tla says what they
answer and what every context's memory has to be afterwards.
"""
from vlib import *
from pktcheck import drive

WRAP = tuple("-Wl,--wrap=" + x for x in
             ("malloc", "calloc", "realloc", "strdup", "free",
              "pt_image_alloc", "pt_image_free"))
PIDS = [0, 1, 2, 0x10001, 0x1, 0x80000000, 0xffffffff, 0x101, 0x100000000 - 2]
CFG = """INIT TraceInit
NEXT TraceNext
CONSTANTS Slots = 10
          Units = 6
          MaxUsers = 65535
INVARIANTS OnePerPid Counted Ended
"""
MC = """INIT CInit
NEXT CNext
CONSTANTS Slots = 1
          Units = 2
          MaxUsers = 2
INVARIANTS OnePerPid Counted Ended
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
"""


def case(rng):
    pids = rng.sample(PIDS, rng.randint(1, 4))
    out, n = [str(rng.randrange(2))], 0
    for _ in range(rng.randint(2, 14)):
        r = rng.random()
        h = rng.randint(1, n) if n else 0
        if r < .22 or not n:
            out.append("g%x%s" % (rng.choice(pids), "" if rng.random() < .8
                                  else ",%d" % rng.randrange(8)))
            n += 1
        elif r < .32:
            out.append("f%x" % rng.choice(pids))
        elif r < .42:
            out.append("r%d" % h)
        elif r < .54:
            out.append("+%d,%d" % (h, rng.choice(
                [1, 1, 2, 3] if rng.random() < .96 else
                [255, 256, 65533, 65534, 65535, 65536])))
        elif r < .64:
            out.append("-%d,%d" % (h, rng.choice([1, 1, 2, 70000])))
        elif r < .85:
            out.append("m%d,%d,%d,%d,%d" % (
                h if rng.random() < .7 else 0, rng.choice([1, 2, 3, 3, 0])
                if rng.random() < .4 else rng.randint(1, 3),
                rng.randrange(6) if rng.random() < .95 else
                rng.choice([6, 7, 100]), rng.choice([1, 1, 2, 3, 6, 9]),
                rng.randrange(10)))
        elif r < .9:
            out.append("n%d" % rng.randrange(3))
        elif r < .97:
            out.append("s%d" % h)
        else:
            out.append("x")
    if rng.random() < .3:
        out.append("x")
    for _ in range(rng.choice([0, 0, 2])):
        out.append("%s%d,1" % (rng.choice("+-"), rng.randint(1, max(1, n))))
    return " ".join(out)


def run(c):
    rng = c.rng
    r = tlc("SbContexts", MC)
    c.add_tlc(r)
    if not r.ok:
        raise CheckError("SbContexts: " + r.out[-2000:])
    exe = harness("sbctx.c", "asan", sb=True, link=WRAP)
    n = c.n(8000, 100000)
    steps = 0
    for a in range(0, n, 8000):
        cases = [case(rng) for _ in range(min(8000, n - a))]
        d = os.path.join(tmpdir(), "sbctx")
        os.makedirs(d, exist_ok=True)
        lines = drive(c, exe, cases, args=[d])
        if len(lines) < len(cases):
            return
        steps += sum(l.count(b'"k":') for l in lines)
        for idx, st in validate(c, "SbCtxTrace", lines, CFG, cases=cases,
                                deadlock=True):
            m = re.search(r"/\\ k = (\d+)", st)
            k = int(m.group(1)) if m else 0
            rec = json.loads(lines[idx])
            c.violation("C26: step %d is not allowed by SbContexts: %s "
                        "in case %s" % (k + 1, json.dumps(
                            rec["steps"][k] if k < len(rec["steps"])
                            else rec["left"]), cases[idx]),
                        {"case": cases[idx], "driver": "sbctx.c",
                         "step": k + 1, "recorded": rec, "spec_state": st})
        for k in range(0, len(cases), max(1, len(cases) // 2)):
            c.sample({"case": cases[k], "recorded":
                      lines[k].decode()[:500]}, 4)
        if c.viol:
            break
    c.cov["calls"] = steps


if __name__ == "__main__":
    main(run, "C26", "exploration")
