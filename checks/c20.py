"""C20: every decode loop makes progress and ends."""
from flowrun import *
import decgen, ptgen
from ptgen import *
from deccheck import check_histories, case


def junk(rng):
    buf = []
    for _ in range(rng.randrange(1, 6)):
        if rng.random() < .6:
            buf += PSB
            if rng.random() < .7:
                buf += PSBEND
        buf += [rng.choice([0, 2, 0x82, 0x19, 0xff, rng.randrange(256)])
                for _ in range(rng.randrange(30))]
        for _ in range(rng.randrange(6)):
            buf += rand_bytes_packet(rng)
    return buf


def damage(rng, raw):
    """Trace with something wrong in it."""
    raw = list(raw)
    for _ in range(rng.choice([1, 1, 2, 5])):
        k = rng.randrange(len(raw))
        r = rng.random()
        if r < .35:
            raw[k] ^= 1 << rng.randrange(8)
        elif r < .5:
            raw[k] = rng.choice([0, 2, 5, 0x19, 0x99, 0xff, 0x71, 0x0d,
                                 rng.randrange(256)])
        elif r < .65:
            del raw[k:k + rng.choice([1, 1, 2, 8])]
        elif r < .8:
            raw[k:k] = rand_bytes_packet(rng)
        elif r < .9:
            j = rng.randrange(len(raw))
            raw[k:k] = raw[j:j + rng.choice([4, 16, 64])]
        else:
            del raw[k:]
        if not raw:
            return [0]
    return raw


MODEL = "SPECIFICATION Spec\nCONSTANTS N = %d\n Steps = %d\n" \
    "INVARIANT TypeOK\nPROPERTY Ends\n"


def loops(case, line):
    """What the decode loops of a case did, as lines for LoopTrace."""
    hx = case.split()[2]
    n = 0 if hx == "-" else len(hx) // 2
    out, ev, op = [], None, ""
    for r in json.loads(line)["r"]:
        if r[0] == "s":
            if ev is None or op != "F" or r[1] != "F":
                ev = []
                out.append((r[1], ev))
            op = r[1]
            ev.append({"t": "sync", "e": r[2], "c": 0,
                       "o": r[3] if len(r) > 3 else -1})
        elif r[0] == "x":
            ev.append({"t": "fail", "e": r[2], "ok": True})
        elif r[0] == "after":
            ev[-1]["ok"] = bool(r[2])
        elif r[0] == "off":
            ev[-1]["ok"] = bool(r[1])
        elif r[0] in ("endless", "noprogress"):
            ev.append({"t": "stuck"})
        elif r[0] not in ("start", "end"):
            ev[-1]["c"] += 1
    for op, ev in out:
        if op != "F" and ev[-1]["t"] != "stuck":
            # the user does not go on
            if ev[-1]["t"] == "sync" and not ev[-1]["e"]:
                ev.append({"t": "fail", "e": "stopped", "ok": True})
            if ev[-1]["t"] == "fail" or ev[-1]["e"] != "eos":
                ev.append({"t": "sync", "e": "eos", "o": -1, "c": 0})
    return [json.dumps({"n": n, "max": n * 40 * 300 + 10000, "ev": ev})
            for op, ev in out]


def judge(c, R):
    """Run the cases; TLC decides about the loops."""
    exe = harness(EXE, "asan")
    lines = drive(c, exe, R.cases)
    rec, case = [], []
    for k, l in enumerate(lines):
        for x in loops(R.cases[k], l):
            rec.append(x)
            case.append(R.cases[k])
    bad = validate(c, "LoopTrace", [x.encode() for x in rec],
                   "INIT TraceInit\nNEXT TraceNext\n", cases=case,
                   deadlock=True)
    for idx, st in bad:
        c.violation("%s: the decode loop is not a behaviour of DecodeLoop: "
                    "%s" % (c.pid, rec[idx][:400]),
                    {"case": case[idx], "driver": EXE, "recorded":
                     json.loads(rec[idx]), "spec_state": st})
    c.cov["distinct_nontrivial"] = c.cov.get(
        "distinct_nontrivial", 0) + len(set(R.cases))
    R.cases, R.meta, R.must = [], [], []
    return len(bad) + len(c.viol)


def flow(c):
    """The same for the instruction flow and the block decoder."""
    rng = c.rng
    # the contract is enough for the loop to end
    r = tlc("DecodeLoop", MODEL % (c.n(12, 40), c.n(8, 30)))
    if not r.ok:
        raise CheckError("the decode loop does not end:\n" + r.out[-2000:])
    c.add_tlc(r)
    R = Run(c)
    for rnd in range(c.n(1, 12)):
        progs = programs(rng, c.n(60, 100), steps=lambda r: r.choice(
            [10, 30, 60]))
        bs = behaviours(c, progs, len(progs) * c.n(6, 20), 150)
        for b in bs:
            P = b[0]
            raw, psbs = encode(rng, P, b[1])
            for _ in range(c.n(4, 8)):
                layer = rng.choice("ib")
                errs = [e for e in ERRATA if rng.random() < .15]
                cfg = errs + [x for x in ("iflags", "keep", "tick")
                              if rng.random() < .3]
                if layer == "b":
                    cfg += blkcfg(rng)
                if "skl014" in errs and rng.random() < .7:
                    cfg += filters(P)
                secs = split(rng, P.sections(), .1)
                if rng.random() < .2:
                    del secs[rng.randrange(len(secs))]
                secs = secs or P.sections()
                R.add(layer, P, damage(rng, raw), None, cfg=cfg, secs=secs,
                      kinds=rng.choice(KINDS), starts=rng.choice(
                          ["F", "F", "F", "f B B F", "F B/3 f F",
                           "S%d f B/1 F" % rng.choice(psbs)]))
            # each truncation
            if rng.random() < .05:
                layer = rng.choice("ib")
                for n in range(1, min(len(raw), 250)):
                    R.add(layer, P, raw[:n], None, starts="F")
        if judge(c, R):
            break


def run(c):
    rng = c.rng
    cases = []

    def add(buf, ops="L"):
        layer = rng.choice("peq")
        errs = [e for e in ERRATA if rng.random() < .15]
        extra = [x for x in ("iflags", "keep") if rng.random() < .4]
        if rng.random() < .1:
            extra.append("cb=%d" % rng.choice([1, 2, 3, 8, 200]))
        cases.append(case(layer, rng.randrange(8),
                          cfgstr(rng, errata=errs, extra=extra), buf, ops))
    for k in range(c.n(3000, 80000)):
        add(junk(rng))
    for k in range(c.n(2000, 50000)):
        buf = decgen.flat(decgen.trace(rng, rng.choice(["legal", "mut",
                                                        "rand"])))
        add(buf, rng.choice(["L", "L", "F R300 N N N F N", "B R50 B N N",
                             "N N F N", "S0 R100 N N"])
            if rng.random() < .5 else "L")
        if rng.random() < .5:
            buf = buf[:rng.randrange(len(buf) + 1)]
            add(buf)
    # every truncation of a trace
    for _ in range(c.n(12, 200)):
        buf = decgen.flat(decgen.trace(rng, "legal", steps=8))[:120]
        for n in range(len(buf)):
            add(buf[:n])
    # the last packet is one that an erratum makes longer or shorter
    for tail in ([2, 0x73, 1, 2, 3, 4, 5], [2, 0x73, 1, 2, 3, 4, 5, 6],
                 [7, 2, 0xf3], [7, 2], [7]):
        for layer in "peq":
            for o in ("L", "F R9 N N"):
                cases.append(case(layer, 0, "skz84,skd007",
                                  PSB + PSBEND + tail, o))
    cases = [x.replace(" N", " X") if x[0] == "q" else x for x in cases]
    check_histories(c, cases)
    flow(c)
    c.assumptions.append("the user's callback for unknown packets does not "
                         "claim packets of zero bytes")


if __name__ == "__main__":
    main(run, "C20", "exploration")
