"""C15: sideband sessions, with scripted decoders.

sbsess.c records the session's calls of the decoders' functions; SbTrace.tla
says in which order they have to come.
"""
from vlib import *
from pktcheck import drive

TIMES = [0, 1, 2, 3, 1000, 2**31, 2**32, 2**32 + 1, 2**63 - 1, 2**63,
         2**64 - 2, 2**64 - 1]
WRAP = ("-Wl,--wrap=malloc",)
ERRS = [-7, -5, -14, -9]      # eos is -7


def script(rng, nt):
    """What the functions of a decoder return."""
    f, t = [], rng.randrange(nt) if rng.random() < .5 else 0
    n = rng.choice([0, 1, 1, 2, 3, 5, 8])
    for _ in range(n):
        f.append(str(t))
        t = min(nt - 1, t + rng.choice([0, 0, 1, 1, 2, 4])) \
            if rng.random() < .93 else rng.randrange(nt)
    f.append(str(rng.choice([-7, -7, -7, -7, -5, -9])))
    bad = rng.choice([0, 0, 0, .1, .3])

    def res():
        r = rng.random()
        if r < bad:
            return str(rng.choice(ERRS))
        return "i%d" % rng.randrange(1, 5) if r < .5 + bad else "."
    a = [res() for _ in range(rng.randint(1, 12))]
    p = ["." if rng.random() >= bad else str(rng.choice(ERRS))
         for _ in range(rng.randint(1, 6))]
    if a[-1][0] == "-" and rng.random() < .8:
        a.append(".")
    p.append(".")
    return "D%d:%s:%s:%s" % (
        rng.random() < .5, "" if rng.random() < .04 else ",".join(f),
        "" if rng.random() < .04 else ",".join(a),
        "" if rng.random() < .06 else ",".join(p))


def case(rng):
    ts = sorted(rng.sample(TIMES, rng.randint(2, 8)))
    nt, nd = len(ts), rng.choice([1, 2, 2, 3, 3, 4, 6])
    out = [",".join("%x" % t for t in ts)]
    out += [script(rng, nt) for _ in range(nd)]
    left = list(range(1, nd + 1))
    t = 0
    for _ in range(rng.choice([0, nd, nd, nd])):
        if left:
            out.append("a%d" % left.pop(0))
    if rng.random() < .95:
        out.append("n")
    for _ in range(rng.randint(1, 10)):
        r = rng.random()
        if r < .1 and left:
            out.append("a%d%s" % (left.pop(0), "!" if rng.random() < .1
                                  else ""))
            if rng.random() < .7:
                out.append("n")
        elif r < .15:
            out.append("n")
        elif r < .25:
            out.append("u%d" % rng.randrange(nt))
        else:
            t = min(nt - 1, t + rng.choice([0, 0, 1, 1, 1, 2])) \
                if rng.random() < .9 else rng.randrange(nt)
            out.append("e%d,%d,%d,%d" % (
                t, rng.choice([0, 1, 1]), rng.choice(
                    [0, 0, 0, 0, 0, 8, 16, 24, 32, 40, 48, -8, -64]),
                rng.random() < .3))
    return " ".join(out)


def run(c):
    rng = c.rng
    exe = harness("sbsess.c", "asan", sb=True, link=WRAP)
    n = c.n(6000, 100000)
    steps = 0
    for a in range(0, n, 6000):
        cases = [case(rng) for _ in range(min(6000, n - a))]
        lines = drive(c, exe, cases)
        if len(lines) < len(cases):
            return
        steps += sum(l.count(b'"k":') for l in lines)
        for idx, st in validate(c, "SbTrace", lines,
                                "INIT TraceInit\nNEXT TraceNext\n",
                                cases=cases, deadlock=True):
            m = re.search(r"/\\ k = (\d+)", st)
            k = int(m.group(1)) if m else 0
            rec = json.loads(lines[idx])["steps"]
            again = run_driver(exe, [], (cases[idx] + "\n").encode())
            c.violation("C15: step %d is not allowed by SbSession: %s "
                        "in case %s" % (k + 1, json.dumps(
                            rec[k] if k < len(rec) else {}), cases[idx]),
                        {"case": cases[idx], "driver": "sbsess.c",
                         "step": k + 1, "steps": rec,
                         "reproduced": again.strip() == lines[idx].strip(),
                         "spec_state": st})
        for k in range(0, len(cases), max(1, len(cases) // 2)):
            c.sample({"case": cases[k][:400], "recorded":
                      lines[k].decode()[:500]}, 4)
        if c.viol:
            break
    c.cov["calls"] = steps


if __name__ == "__main__":
    main(run, "C15", "exploration")
