"""C14: threads sharing section caches, under all schedules.

sched.c runs the threads of a case one at a time and decides who is next, at
lock operations or at any access to shared memory.  LinTrace.tla says which
histories are possible: those of ImageOps.tla in some order that respects the
order of calls and returns, ending with everything released.
"""
from concurrent.futures import ThreadPoolExecutor
from imggen import *

LINK = WRAP + tuple("-Wl,--wrap=" + x for x in (
    "mtx_lock", "mtx_unlock", "mtx_trylock", "fseek", "fread", "fclose"))
LIN = "INIT Init\nNEXT Next\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\n"
SIZES = [4096, 8192, 12288, 5000, 300]


# What the threads are mostly doing.
MIX = ["cadd", "cadd", "addc", "addc", "read", "read", "read", "cread",
       "cread", "limit", "hold", "hold", "hread", "bc", "drop", "ifree", "rma"]
ADD = ["cadd", "cadd", "cadd", "cadd", "cread", "addc", "read"]
MAP = ["cread", "cread", "cread", "cread", "hold", "hold", "read", "bc", "bc",
       "drop", "limit", "cadd"]
FREE = ["read", "read", "hold", "hold", "bc", "drop", "drop", "ifree", "rma"]


class Scen:
    """One scenario: what the threads do."""

    def __init__(self, rng):
        self.rng = rng
        self.sizes = [rng.choice(SIZES) for _ in range(rng.choice([1, 2, 2, 3]))]
        self.parts = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            f = rng.randrange(len(self.sizes))
            o = rng.choice([0, 0, 0, 100])
            size = rng.choice([self.sizes[f], self.sizes[f], 200, 4096])
            a = rng.choice([0, 0, 0x1000, 0x3000])
            self.parts.append((f, o, size, a))
        self.kinds = rng.choice([MIX, MIX, ADD, MAP, MAP, FREE])
        self.free = self.kinds is FREE      # a thread frees cache 2
        self.caches = [1] if self.free or rng.random() < .85 else [1, 2]

    def cadd(self, c=None):
        p = self.rng.choice(self.parts)
        return "cadd,%d,%d,%d,%d,%d" % ((c or self.rng.choice(self.caches),) + p)

    def addr(self):
        p = self.rng.choice(self.parts)
        return p[3] + self.rng.choice([0, 0, 16, 100, 250, max(0, p[2] - 8)])

    def limit(self):
        r = self.rng
        return "limit,%d,%d" % (r.choice(self.caches), r.choice(
            [0, 0, 300, 4096, 4096, 5000, 8192, 8192, 12288, 16384]))

    def addc(self, t):
        r = self.rng
        return "addc,%d,%d,%d,-1,-1,0" % (t, r.choice(self.caches),
                                          r.choice([1, 1, 1, 2, 2, 3]))

    def read(self, t):
        return "read,%d,%d,-1,-1,%d" % (t, self.rng.choice([4, 8, 15]),
                                        self.addr())

    def op(self, t, last):
        r = self.rng
        k = r.choice(self.kinds)
        # an operation that needs a held section, most of the time
        if k in ("hread", "bc", "drop") and not self.held.get(t):
            k = "hold"
        if k in ("read", "hold") and t not in self.has and r.random() < .8:
            k = "addc"
        if k == "cadd":
            s = self.cadd()
        elif k == "addc":
            s = self.addc(t)
            self.has.add(t)
        elif k == "read":
            s = self.read(t)
        elif k == "cread":
            s = "cread,%d,%d,%d,%d" % (r.choice(self.caches), r.choice(
                [1, 1, 2]), r.choice([4, 16]), self.addr())
        elif k == "limit":
            s = self.limit()
        elif k == "hold":
            s = "hold,%d,%d,8,-1,-1,%d" % (t, t, self.addr())
            self.held[t] = 1
        elif k == "hread":
            s = "hread,%d,8,%d" % (t, self.addr())
        elif k == "bc":
            s = "bc,%d" % t
        elif k == "drop":
            s = "drop,%d" % t
            self.held[t] = 0
        elif k == "ifree":
            s = "ifree,%d" % t
        else:
            s = "rma,%d,-1,-1,0" % t
        if k not in ("drop", "hread") and r.random() < self.pfail:
            return [r.choice(["fail,%d" % r.choice([0, 0, 1, 2, 3]),
                              "nomap"]), s]
        return [s]

    def case(self, nthr, nops, pfail=0):
        r = self.rng
        self.has, self.held, self.pfail = set(), {}, pfail
        pro, epi, thr = [], [], []
        if r.random() < .8:
            pro.append(self.limit())
        if self.kinds is ADD:
            # the table grows
            n = r.choice([0, 0, 0, 7, 8])
            pro += ["cadd,1,0,%d,8,%d" % (i, 0x10000 + 16 * i)
                    for i in range(n)]
        else:
            for _ in range(r.choice([0, 1, 1, 2]) or self.kinds is MAP):
                pro.append(self.cadd(1))
        if r.random() < .15 and self.kinds is not ADD:
            # the file cannot be mapped into memory
            pro += ["limit,1,16384", self.cadd(1), "nomap",
                    "cread,1,1,8,%d" % self.addr()]
        if self.free:
            pro.append("limit,2,%d" % r.choice([4096, 8192, 16384]))
            pro += [self.cadd(2), self.cadd(2)]
        for t in range(1, nthr + 1):
            if self.free and r.random() < .9:
                for i in r.sample([1, 2], r.choice([1, 2])):
                    pro.append("addc,%d,2,%d,-1,-1,0" % (t, i))
                self.has.add(t)
            elif r.random() < .5:
                pro.append(self.addc(t))
                self.has.add(t)
            if t in self.has and r.random() < .4:
                pro.append(self.read(t))
            if t in self.has and r.random() < .15:
                pro.append("hold,%d,%d,8,-1,-1,%d" % (t, t, self.addr()))
                self.held[t] = 1
        frees = r.randint(1, nthr) if self.free else 0
        for t in range(1, nthr + 1):
            ops = []
            n = r.randint(1, nops)
            for _ in range(n):
                ops += self.op(t, False)
            if t == frees:
                at = r.randint(0, 1)
                ops[at:] = ["cfree,2"] if at == 0 or \
                    not ops[0].startswith(("fail", "nomap")) else \
                    [ops[1], "cfree,2"]
                if r.random() < .3:
                    ops.append(self.read(t))
            thr.append(ops)
        for h in range(1, nthr + 1):
            epi.append("drop,%d" % h)
        for p in dict.fromkeys(self.parts):
            epi.append("cadd,1,%d,%d,%d,%d" % p)
        epi.append("cread,1,1,8,%d" % self.addr())
        if r.random() < .5:
            epi.append("limit,1,%d" % r.choice([0, 4096, 8192]))
        for t in range(1, nthr + 1):
            epi.append(self.read(t))
        return "%x %s %s" % (r.choice(BASES), ",".join(map(str, self.sizes)),
                             " | ".join(" ".join(g) for g in
                                        [pro] + thr + [epi]))


def explore(exe, case):
    try:
        out = run_driver(exe, [tmpdir()], (case + "\n").encode())
    except Crash as ex:
        return case, None, ex
    return case, out.splitlines(), None


def run(c):
    rng = c.rng
    exe = harness("sched.c", "sched", link=LINK)
    cases = []
    quick = c.n(1, 0)
    for _ in range(c.n(140, 2500)):
        pf = rng.choice([0, 0, 0, .15])
        two, three = rng.choice([2, 3, 4]), rng.choice([1, 2])
        s = Scen(rng).case(*rng.choice([(2, two, pf), (2, two, pf),
                                        (3, three, pf)]))
        cases.append("L2:%d %s" % (4000 if quick else 40000, s))
        cases.append("A1:%d %s" % (2000 if quick else 20000, s))
        cases.append("R%d:%d %s" % (rng.randrange(10 ** 6),
                                    400 if quick else 4000, s))
        if not quick:
            cases.append("A2:20000 " + s)
    # short ones, deeper
    for _ in range(c.n(30, 400)):
        s = Scen(rng).case(2, rng.choice([1, 1, 2]))
        cases.append("A2:%d %s" % (6000 if quick else 60000, s))
        cases.append("L4:%d %s" % (6000 if quick else 60000, s))
    runs = full = steps = nhist = 0
    for at in range(0, len(cases), 400):
        part = cases[at:at + 400]
        lines, of = [], []
        with ThreadPoolExecutor(NCPU) as ex:
            for case, out, crash in ex.map(lambda x: explore(exe, x), part):
                if crash:
                    m = re.search(r"SCHEDULE (\S+)", crash.detail)
                    c.violation(
                        "C14: %s with schedule %s on case: %s" % (
                            "hang" if crash.what in ("hang", "timeout")
                            else "crash", m and m.group(1), case[:300]),
                        {"case": case, "what": crash.what,
                         "schedule": m and m.group(1),
                         "detail": crash.detail, "driver": "sched.c"})
                    continue
                end = json.loads(out[-1])
                runs += end["runs"]
                full += end["end"]
                steps = max(steps, end.get("steps", 0))
                lines += out[:-1]
                of += [case] * (len(out) - 1)
        # the same histories come from several explorations of a scenario
        uniq = {}
        for l, case in zip(lines, of):
            uniq.setdefault(l[:l.index(b',"sch"')], (l, case))
        lines = [l for l, _ in uniq.values()]
        of = [x for _, x in uniq.values()]
        nhist += len(lines)
        for idx, st in validate(c, "LinTrace", lines, LIN, cases=of):
            rec = json.loads(lines[idx])
            replay = rec["sch"] + " " + of[idx].split(" ", 1)[1]
            again = explore(exe, replay)[1]
            what = "deadlock" if rec["stuck"] else "leak" \
                if any(rec["bal"].values()) else "not linearizable"
            c.violation("C14: %s (%s): %s" %
                        (what, json.dumps(rec["bal"]), replay[:400]),
                        {"case": replay, "driver": "sched.c", "what": what,
                         "recorded": rec,
                         "reproduced": bool(again) and
                         json.loads(again[0])["ops"] == rec["ops"]})
        for k in range(0, len(lines), max(1, len(lines) // 2)):
            c.sample({"case": of[k][:300],
                      "schedule": json.loads(lines[k])["sch"],
                      "history": [(o["op"], o["e"], o["inv"], o["ret"])
                                  for o in json.loads(lines[k])["ops"]]}, 4)
        if c.viol:
            break
    c.cov.update(scenarios=len(cases), schedules=runs, histories=nhist,
                 scenarios_explored_to_their_bound=full,
                 longest_schedule=steps)


if __name__ == "__main__":
    main(run, "C14", "exploration")
