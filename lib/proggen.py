"""Programs for spec/Processor.tla, their memory images, and the encoding of
its abstract trace into bytes."""
import random
import ptgen
from ptgen import le, IPSZ

M64 = (1 << 64) - 1
CLASS = {"other": "other", "jmp": "jump", "ijmp": "jump", "jmpabs": "jump",
         "call": "call", "icall": "call", "jcc": "cond_jump", "ret": "return",
         "fcall": "far_call", "syscall": "far_call", "fret": "far_return",
         "iret": "far_return", "vmentry": "far_return", "uiret": "far_return",
         "fjmp": "far_jump", "ptwrite": "ptwrite", "mcr3": "other",
         "vmptrld": "other", "xbegin": "other", "xend": "other",
         "cli": "other"}


def rb(rng, n):
    return [rng.getrandbits(8) for _ in range(n)]


def enc_other(rng, mode):
    k = [lambda: [0x90], lambda: [0x66, 0x90], lambda: [0x0f, 0x1f, 0xc0],
         lambda: [0x0f, 0x1f, 0x40, 0], lambda: [0x50 + rng.randrange(8)],
         lambda: [0x58 + rng.randrange(8)], lambda: [0x01, 0xc0],
         lambda: [0x89, 0xc8 + rng.randrange(8)],
         lambda: [0x31, 0xc0], lambda: [0xf3, 0xa4],
         lambda: [0x0f, 0x20, 0xd8], lambda: [0x0f, 0x22, 0xc0],
         lambda: [0x0f, 0xa2], lambda: [0xf4], lambda: [0xff, 0xc0],
         lambda: [0xff, 0xf0], lambda: [0x0f, 0xae, 0xe8],
         lambda: [0x83, 0xc0] + rb(rng, 1), lambda: [0x6a] + rb(rng, 1),
         lambda: [0x0f, 0x01, 0xd0], lambda: [0x0f, 0xc7, 0xf0],
         lambda: [0x0f, 0x05 + 4], lambda: [0x0f, 0x08],
         lambda: [0x0f, 0x22, 0xe0]]
    if mode != 16:
        k += [lambda: [0xb8 + rng.randrange(8)] + rb(rng, 4),
              lambda: [0x05] + rb(rng, 4),
              lambda: [0x8d, 0x80] + rb(rng, 4),
              lambda: [0x8b, 0x84, 0x24] + rb(rng, 4),
              lambda: [0x66, 0xb8] + rb(rng, 2),
              lambda: [0xc7, 0x80] + rb(rng, 8),
              lambda: [0x66, 0x0f, 0x3a, 0x0f, 0xc0] + rb(rng, 1),
              lambda: [0x0f, 0x38, 0x00, 0xc1],
              lambda: [0xf2, 0x0f, 0x38, 0xf0, 0xc0]]
    if mode == 64:
        k += [lambda: [0x48, 0xb8] + rb(rng, 8),
              lambda: [0x48, 0x8b, 0x05] + rb(rng, 4),
              lambda: [0x48, 0x89, 0xe5], lambda: [0x41, 0x54],
              lambda: [0xc5, 0xf8, 0x77],
              lambda: [0xc4, 0xe2, 0x79, 0x18, 0xc0],
              lambda: [0x66, 0x66, 0x2e, 0x0f, 0x1f, 0x84, 0, 0, 0, 0, 0],
              lambda: [0x48, 0xa1] + rb(rng, 8),
              lambda: [0x67, 0x8b, 0x00],
              lambda: [0x62, 0xf1, 0x7c, 0x48, 0x58, 0xc0]]
    return rng.choice(k)()


def enc_fixed(rng, c, mode):
    """The bytes of an instruction without a direct target."""
    o = []
    if c == "ret":
        o = [[0xc3], [0xc2] + rb(rng, 2), [0xf3, 0xc3], [0xf2, 0xc3]]
    elif c == "ijmp":
        o = [[0xff, 0xe0 + rng.randrange(8)], [0xff, 0x20 + rng.choice([0, 1, 3])]]
        if mode != 16:
            o += [[0xff, 0x25] + rb(rng, 4), [0x3e, 0xff, 0xe2]]
        if mode == 64:
            o += [[0x41, 0xff, 0xe3], [0xff, 0x24, 0xc5] + rb(rng, 4)]
    elif c == "icall":
        o = [[0xff, 0xd0 + rng.randrange(8)], [0xff, 0x10 + rng.choice([0, 1, 3])]]
        if mode != 16:
            o += [[0xff, 0x15] + rb(rng, 4), [0xff, 0x50] + rb(rng, 1)]
        if mode == 64:
            o += [[0x41, 0xff, 0xd2],
                  [0x64, 0x41, 0xff, 0x94, 0xc0] + rb(rng, 4)]
    elif c == "fcall":
        o = [[0xcc], [0xcd] + rb(rng, 1), [0xf1], [0xff, 0x18],
             [0x0f, 0x01, 0xc1]]
        if mode == 32:
            o += [[0x9a] + rb(rng, 6), [0xce]]
        if mode == 16:
            o += [[0x9a] + rb(rng, 4), [0xce]]
        if mode == 64:
            o += [[0x48, 0xff, 0x5d] + rb(rng, 1)]
    elif c == "syscall":
        o = [[0x0f, 0x05], [0x0f, 0x34]]
    elif c == "fret":
        o = [[0xcb], [0xca] + rb(rng, 2), [0x0f, 0x07], [0x0f, 0x35]]
        if mode == 64:
            o += [[0x48, 0xcb], [0x48, 0x0f, 0x07]]
    elif c == "fjmp":
        o = [[0xff, 0x28]]
        if mode == 32:
            o += [[0xea] + rb(rng, 6)]
        if mode == 16:
            o += [[0xea] + rb(rng, 4)]
        if mode == 64:
            o += [[0x48, 0xff, 0x6f] + rb(rng, 1)]
    elif c == "iret":
        o = [[0xcf], [0x66, 0xcf]]
        if mode == 64:
            o += [[0x48, 0xcf]] * 2
    elif c == "vmentry":
        o = [[0x0f, 0x01, 0xc2], [0x0f, 0x01, 0xc3]]
    elif c == "uiret":
        o = [[0xf3, 0x0f, 0x01, 0xec]]
    elif c == "mcr3":
        o = [[0x0f, 0x22, 0xd8 + rng.randrange(8)]]
        if mode == 64:
            o += [[0x41, 0x0f, 0x22, 0xd8]]
    elif c == "vmptrld":
        o = [[0x0f, 0xc7, 0x30 + rng.choice([0, 1, 3])]]
        if mode != 16:
            o += [[0x0f, 0xc7, 0x75] + rb(rng, 1), [0x0f, 0xc7, 0xb0] +
                  rb(rng, 4)]
    elif c == "ptwrite":
        o = [[0xf3, 0x0f, 0xae, 0xe0 + rng.randrange(8)],
             [0xf3, 0x0f, 0xae, 0x20]]
        if mode == 64:
            o += [[0xf3, 0x48, 0x0f, 0xae, 0xe1]]
    elif c == "xbegin":
        o = [[0xc7, 0xf8] + rb(rng, 2 if mode == 16 else 4)]
    elif c == "xend":
        o = [[0x0f, 0x01, 0xd5]]
    elif c == "cli":
        o = [[0xfa], [0xfb]]
    return rng.choice(o)


def prefixed(rng, b, mode):
    """Sometimes, prefixes that do not matter, up to the longest possible
    instruction."""
    if rng.random() < .85 or b[0] == 0xd5 or len(b) > 14:
        return b
    seg = [0x2e, 0x36, 0x3e, 0x26, 0x64, 0x65]
    return [rng.choice(seg) for _ in range(rng.randrange(
        1, 16 - len(b)))] + b


# direct branches: the possible opcodes with the size of the displacement
def enc_direct(rng, c, mode):
    w = 2 if mode == 16 else 4
    if c == "jmp":
        return rng.choice([([0xeb], 1), ([0xe9], w)])
    if c == "call":
        return ([0xe8], w)
    o = [([0x70 + rng.randrange(16)], 1)] * 2 + \
        [([0x0f, 0x80 + rng.randrange(16)], w)] * 2 + \
        [([0xe0 + rng.randrange(4)], 1)]
    return rng.choice(o)


DIRECT = ("jmp", "call", "jcc")


class Program:
    """One program: addresses, memories, and everything TLC needs of it."""

    def __init__(self, rng, nregions=None, size=None, spaces=None, vms=False,
                 modes=(64,), flags=None, steps=40, mix=None, exits=True,
                 span=260, chain=0, dual=False):
        self.rng = rng
        if dual:
            nregions, spaces, vms, modes = 2, None, False, (64,)
        self.dual = dual        # the same code in two modes
        self.span = span        # room for a region
        self.chain = chain      # depth of a chain of calls
        flags = dict(flags or {})
        for k in ("defer", "comp", "cr3", "os", "filter", "skl014", "iflags",
                  "cfe", "trig", "skd022", "bdm64"):
            flags.setdefault(k, False)
        flags.setdefault("never", [])
        flags.setdefault("more", [])
        self.flags = flags
        self.steps = steps
        nm = spaces or 1
        self.nregions = nregions or rng.randrange(1, 5)
        # --- regions
        self.regions = []
        used = []

        def clash(b, e):
            return any(b < ue + 16 and ub < e + 16 for ub, ue in used)
        for r in range(self.nregions):
            mode = rng.choice(modes)
            while True:
                if mode == 64:
                    base = rng.choice([0x400000, 0x401000, 0x7f0012340000,
                                       0xffffffff81000000, 0x1000, 0x600ff0,
                                       0xffff800000000000,
                                       0x10000fff8]) + rng.getrandbits(12)
                elif mode == 32:
                    base = rng.choice([0x8048000, 0xc0100000, 0x20000]) + \
                        rng.getrandbits(12)
                else:
                    base = 0x7c00 + rng.getrandbits(12)
                if r and rng.random() < .35:
                    base = (self.regions[-1]["base"] +
                            rng.randrange(span + 40, span + 2800))
                    if self.regions[-1]["mode"] != mode:
                        continue
                if not clash(base, base + span):
                    break
            if dual:
                base = 0x1000000 * (1 + r) + rng.getrandbits(12)
                mode = (64, 32)[r]
            used.append((base, base + span))
            self.regions.append({"base": base, "mode": mode})
        # --- memories: per region, own, shared or no content
        self.nmem = nm if not vms else nm + rng.randrange(1, 3)
        size = size or rng.randrange(3, 14)
        for k, R in enumerate(self.regions):
            if dual:
                R["mem"] = {0: self.layout2(R, size, mix)}
                R["share"] = True
                continue
            share = nm == 1 or rng.random() < .4
            R["mem"] = {}
            common = None
            for m in range(self.nmem):
                if share:
                    if common is None:
                        common = self.layout(R, size, mix)
                    R["mem"][m] = common
                elif rng.random() < .85 or (k == 0 and m == 0):
                    R["mem"][m] = self.layout(R, size, mix)
            R["share"] = share
        self.addresses(exits)
        self.finish()
        # --- which memory is in force
        self.nsp = nm
        self.map = []
        for sp in range(nm):
            row = [sp + 1]
            if vms:
                for v in range(2):
                    row.append(rng.randrange(self.nmem) + 1)
                row[0] = row[0] if not flags["cr3"] else 0
                # without a vmcs, sections of any vmcs are in force: only
                # used where that does not matter
            self.map.append(row)
        self.vms = vms
        self.cr3 = [0x1000 * (k + 1) * rng.randrange(1, 1 << 16) & ~31
                    for k in range(nm)]
        while len(set(self.cr3)) < nm:
            self.cr3 = [rng.getrandbits(46) & ~31 for _ in range(nm)]
        self.nr = [rng.randrange(2) for _ in range(nm)]
        self.vmcs = [None] + [(0x1000 * rng.randrange(1, 1 << 20))
                              for _ in range(3)]
        while len(set(self.vmcs)) < 4:
            self.vmcs[1:] = [0x1000 * rng.randrange(1, 1 << 30)
                             for _ in range(3)]
        self.val = [ptgen.w64(rng) for _ in range(100)]
        self.ptwsz = [rng.randrange(2) for _ in range(100)]

    def layout(self, R, size, mix):
        """A list of [offset, class, encoding...] of one content."""
        rng = self.rng
        mode = R["mode"]
        mix = mix or {}
        w = {"other": 8, "jmp": 2, "call": 3, "jcc": 5, "ret": 3, "ijmp": 1,
             "icall": 1, "fcall": .3, "syscall": .3, "fret": .3, "fjmp": .2,
             "iret": .4, "vmentry": .2, "mcr3": .4, "vmptrld": .2,
             "ptwrite": .6, "xbegin": .3, "xend": .3, "cli": .3}
        if mode == 64:
            w["jmpabs"] = .3
            w["uiret"] = .3
        w.update({k: v for k, v in mix.items()
                  if k in w or (k == "uiret" and mode == 64)})
        if not self.flags["os"]:
            # privileged; what faults does not take effect
            w["mcr3"] = 0
        cs, ws = list(w), list(w.values())
        out, off = [], 0
        n = rng.randrange(max(2, size // 2), size + 1)
        if self.chain and R is self.regions[0]:
            out = self.chained(mode)
            off = out[-1]["off"] + len(out[-1]["b"])
            n = rng.randrange(0, 4)
        for k in range(n):
            c = rng.choices(cs, ws)[0]
            if k == n - 1 and rng.random() < .9:
                c = rng.choice(["ret", "jcc", "ijmp", "jmp", "jcc"])
            if c == "other":
                b = enc_other(rng, mode)
                ins = {"c": c, "b": b}
            elif c == "jmpabs":
                ins = {"c": c, "b": [0xd5, 0, 0xa1] + [0] * 8}
            elif c in DIRECT:
                op, w_ = enc_direct(rng, c, mode)
                if not self.dual and rng.random() < .1:
                    op = [rng.choice([0x2e, 0x3e, 0x64])] * \
                        rng.randrange(1, 15 - len(op) - w_) + op
                ins = {"c": c, "op": op, "w": w_, "b": op + [0] * w_}
            else:
                ins = {"c": c, "b": enc_fixed(rng, c, mode)}
            if c not in DIRECT and not self.dual:
                ins["b"] = prefixed(rng, ins["b"], mode)
            ins["off"] = off
            off += len(ins["b"])
            if off > self.span - 10:
                break
            out.append(ins)
        return out

    def layout2(self, R, size, mix):
        """Code that means something else in another mode: prefixes of the
        one are instructions of the other."""
        if R is not self.regions[0]:
            out = []
            for i in self.regions[0]["mem"][0]:
                if i.get("rex"):
                    out.append({"c": "other", "b": [0x48], "off": i["off"]})
                out.append({"c": i["c"], "off": i["off"] + i.get("rex", 0),
                            "b": i["b"][i.get("rex", 0):], "as": i})
            return out
        rng = self.rng
        out = self.layout({"mode": 32}, size, mix)
        off = 0
        for i in out:
            b = i["b"]
            if b[0] in (0x9a, 0xea, 0xce):
                b = {0x9a: [0xff, 0x18], 0xea: [0xff, 0x28],
                     0xce: [0xcc]}[b[0]]
            if rng.random() < .5 and b[0] in (
                    [0x90, 1, 0x89, 0x31, 0xc3] + list(range(0x70, 0x80))):
                b = [0x48] + b
                i["rex"] = 1
                if "op" in i:
                    i["op"] = [0x48] + i["op"]
            i["b"] = b
            i["off"] = off
            off += len(b)
        return out

    def chained(self, mode):
        """A chain of direct calls, each to behind the return that follows
        it, so that all of them are open at its end."""
        rng = self.rng
        out = []

        def put(c, b, **kw):
            i = dict(kw, c=c, b=b,
                     off=out[-1]["off"] + len(out[-1]["b"]) if out else 0)
            out.append(i)
            return i
        for d in range(self.chain):
            if rng.random() < .1:
                put("other", [0x90])
            w = 2 if mode == 16 else 4
            i = put("call", [0xe8] + [0] * w, op=[0xe8], w=w)
            if rng.random() < .1:
                # not a call as far as returns are concerned
                z = put("call", [0xe8] + [0] * w, op=[0xe8], w=w)
                z["to"] = len(out)
            if rng.random() < .1:
                put("other", [0x90])
            put("ret", rng.choice([[0xc3], [0xc3], [0xf3, 0xc3]]))
            i["to"] = len(out)
        put("other", [0x90])
        if rng.random() < .5:
            j = put("jcc", [0x75, 0], op=[0x75], w=1)
            j["to"] = len(out)
        put("ret", [0xc3])
        return out

    def addresses(self, exits):
        s = set()
        for R in self.regions:
            for m, l in R["mem"].items():
                for i in l:
                    s.add(R["base"] + i["off"])
        self.addr = sorted(s)
        self.n = len(self.addr)
        # addresses outside
        out = set()
        if exits:
            for R in self.regions:
                a = R["base"] + self.span + 2 + self.rng.randrange(8)
                out.add(a)
            while len(out) < 3:
                out.add(self.rng.choice([0x500000, 0x55000]) +
                        self.rng.getrandbits(12))
        self.outside = sorted(a for a in out if a not in s)
        self.addr += self.outside
        self.idx = {a: k + 1 for k, a in enumerate(self.addr)}

    def finish(self):
        """Choose the targets of direct branches; build the tables."""
        rng = self.rng
        self.mode = [0] * len(self.addr)
        self.code = [[{"c": "none", "n": 0, "t": 0, "z": False}
                      for _ in self.addr] for _ in range(self.nmem)]
        self.bytes = [{} for _ in range(self.nmem)]
        for R in self.regions:
            done = set()
            if self.dual and R is not self.regions[0]:
                for i in R["mem"][0]:
                    if "as" not in i:
                        continue
                    x = i["as"]
                    i["c"] = x["c"]
                    i["b"] = x["b"][x.get("rex", 0):]
                    i["z"] = x.get("z", False)
                    i["t"] = 0
                    if x.get("t"):
                        i["t"] = self.idx.get(
                            self.addr[x["t"] - 1] + R["base"] -
                            self.regions[0]["base"], 0)
                done = {id(l) for l in R["mem"].values()}
            for m in R["mem"]:
                l = R["mem"][m]
                if id(l) in done:
                    continue
                done.add(id(l))
                mems = [x for x in R["mem"] if R["mem"][x] is l]
                self.targets(R, l, mems)
            for m, l in R["mem"].items():
                for i in l:
                    a = R["base"] + i["off"]
                    k = self.idx[a] - 1
                    self.mode[k] = R["mode"]
                    self.code[m][k] = {
                        "c": i["c"],
                        "n": self.idx.get(a + len(i["b"]), 0),
                        "t": i.get("t", 0), "z": i.get("z", False)}
                    self.bytes[m][a] = i["b"]
        for k in range(len(self.addr)):
            if not self.mode[k]:
                self.mode[k] = 64

    def starts(self, mode, mems):
        """Addresses that are instructions in all of the memories."""
        r = None
        for m in mems:
            s = set()
            for R in self.regions:
                if R["mode"] == mode and m in R["mem"]:
                    s |= {R["base"] + i["off"] for i in R["mem"][m]}
            r = s if r is None else r & s
        return sorted(r)

    def targets(self, R, l, mems):
        rng = self.rng
        st = self.starts(R["mode"], mems)
        for i in l:
            a = R["base"] + i["off"]
            e = a + len(i["b"])
            if i["c"] == "jmpabs":
                t = rng.choice(st)
                i["b"] = i["b"][:3] + le(t, 8)
                i["t"] = self.idx[t]
                continue
            if i["c"] not in DIRECT:
                continue
            lim = 1 << (8 * i["w"] - 1)

            def fits(t):
                return -lim <= t - e < lim
            cand = [t for t in st if fits(t) and
                    (i["c"] == "jcc" or t > a)]
            outs = [t for t in self.outside if fits(t) and t > a]
            if i["c"] == "call" and e in cand and rng.random() < .25:
                t = e
            elif cand and (rng.random() < .93 or not outs):
                t = rng.choice(cand)
            elif outs:
                t = rng.choice(outs)
            else:
                # nothing in reach: a place where nothing is
                t = None
                for _ in range(50):
                    d = rng.randrange(min(lim, 1 << 20))
                    x = e + d
                    if x not in self.idx and not any(
                            Q["base"] - 16 <= x < Q["base"] + self.span + 20
                            for Q in self.regions):
                        t = x
                        break
                if t is None:
                    i.update(c="other", b=[0x90] * 1 +
                             [0x90] * (len(i["b"]) - 1))
                    # a run of single byte instructions would change the
                    # layout: one instruction of that size instead
                    i["b"] = [0x66] * (len(i["b"]) - 1) + [0x90]
                    if R["mode"] == 16 and len(i["b"]) > 4:
                        i["b"] = [0x66] + [0xb8, 1, 2, 3, 4][:5] \
                            if len(i["b"]) == 6 else i["b"]
                    continue
            if "to" in i:
                t = R["base"] + l[i["to"]]["off"]
            i["t"] = self.idx.get(t, 0)
            i["z"] = i["c"] == "call" and t == e
            i["b"] = i["op"] + le((t - e) & M64, i["w"])

    def tla(self):
        if not hasattr(self, "_tla"):
            self._tla = self.make_tla()
        return self._tla

    def make_tla(self):
        entry = [k + 1 for k in range(self.n)]
        if self.rng.random() < .5:
            entry = sorted(self.rng.sample(
                entry, max(1, min(len(entry), self.rng.randrange(2, 9)))))
        if getattr(self, "entry0", False):
            R = self.regions[0]
            entry = [self.idx[R["base"] + R["mem"][0][k]["off"]]
                     for k in (0, 0, 2)]
            entry = sorted(set(entry))
        return {"n": self.n, "code": self.code, "map": self.map,
                "mode": self.mode, "entry": entry, "flags": self.flags,
                "steps": self.steps,
                "exits": list(range(self.n + 1, len(self.addr) + 1))}

    # ------------------------------------------------------------- image
    def sections(self):
        """[(space, vmcs or None, base, bytes)]: what the user has to add.
        space is None for memory that is the same everywhere."""
        out = []
        for R in self.regions:
            done = {}
            for m, l in sorted(R["mem"].items()):
                if id(l) in done:
                    continue
                done[id(l)] = 1
                b = [x for i in l for x in i["b"]]
                mems = [x for x in R["mem"] if R["mem"][x] is l]
                if len(mems) == self.nmem:
                    out.append((None, None, R["base"], b))
                    continue
                for sp in range(self.nsp):
                    for v, mm in enumerate(self.map[sp]):
                        if mm and mm - 1 in mems:
                            out.append((sp, v if self.vms else None,
                                        R["base"], b))
        return out


def split(rng, secs, often=.3):
    """Cut sections, also in the middle of instructions."""
    out = []
    for sp, vm, base, b in secs:
        while len(b) > 1 and rng.random() < often:
            k = rng.randrange(1, len(b))
            out.append((sp, vm, base, b[:k]))
            base, b = base + k, b[k:]
        out.append((sp, vm, base, b))
    rng.shuffle(out)
    return out


# ------------------------------------------------------------- trace -------
MODE = {64: (1, 0), 32: (0, 1), 16: (0, 0)}
CFE = {"intr": 1, "intr2": 1, "iret": 2, "smi": 3, "rsm": 4, "sipi": 5,
       "init": 6, "vmentry": 7, "vmexit": 8, "vmexitv": 9, "shutdown": 10,
       "uintr": 12, "uiret": 13}


def encode(rng, P, tr, noise=.1, tsc=False, clock=None):
    """The bytes of an abstract trace; the offsets of its PSBs.  clock() gives
    timing packets instead of the noise."""
    p = ptgen.Prod(rng)
    out = []
    psbs = []
    k = 0

    def pad():
        if clock:
            out.extend(clock())
        elif noise and rng.random() < noise:
            x = rng.random()
            if x < .4 and not tsc:
                out.extend([0] * rng.randrange(1, 4))
            elif x < .6 and not tsc:
                out.extend(ptgen.cyc(rng.getrandbits(rng.choice([3, 9]))))
            elif x < .8 and not tsc:
                out.extend(ptgen.mtc(rng.getrandbits(8)))
            else:
                out.extend(ptgen.tsc(rng.getrandbits(40)))
    while k < len(tr):
        it = tr[k]
        t = it["t"]
        pad()
        if t == "tnt":
            e = k + 1
            whole = P.flags["defer"] and e < len(tr) and tr[e]["t"] == "tip"
            while not whole and e < len(tr) and tr[e]["t"] == "tnt":
                if P.flags["defer"] and tr[e + 1:] and \
                        tr[e + 1]["t"] == "tip":
                    break
                e += 1
            bits = [1 if b else 0 for x in tr[k:e] for b in x["b"]]
            if whole:
                # there may be bits from after a branch whose TIP follows
                v = 0
                for x in bits:
                    v = v << 1 | x
                out.extend(ptgen.tnt8(len(bits), v) if rng.random() < .8
                           else ptgen.tnt64(len(bits), v))
                bits = []
            while bits:
                n = rng.randrange(1, min(len(bits), 47) + 1) \
                    if rng.random() < .3 else min(len(bits), 6)
                v = 0
                for x in bits[:n]:
                    v = v << 1 | x
                out.extend(ptgen.tnt8(n, v) if n <= 6 and rng.random() < .8
                           else ptgen.tnt64(n, v))
                bits = bits[n:]
            k = e
            continue
        if t in ("tip", "pge", "fup") or (t == "pgd" and it["a"]):
            op = {"tip": 0x0d, "pge": 0x11, "fup": 0x1d, "pgd": 1}[t]
            out.extend(p.pkt(op, P.addr[it["a"] - 1]))
        elif t == "pgd":
            out.extend(ptgen.pgd(0))
        elif t == "mode":
            out.extend(ptgen.mode_exec(*MODE[it["m"]], it["f"]))
        elif t == "tsx":
            out.extend(ptgen.mode_tsx(it["tx"], it["ab"]))
        elif t == "pip":
            out.extend(ptgen.pip(P.cr3[it["sp"] - 1], P.nr[it["sp"] - 1]))
        elif t == "vmcs":
            out.extend(ptgen.vmcs(P.vmcs[it["vm"]]))
        elif t == "ptw":
            out.extend(ptgen.ptw(P.ptwsz[it["v"]], P.val[it["v"]], it["ip"]))
        elif t == "psb":
            p.reset()
            psbs.append(len(out))
            out.extend(ptgen.PSB)
        elif t == "psbend":
            out.extend(ptgen.PSBEND)
        elif t == "ovf":
            p.reset()
            out.extend(ptgen.OVF)
        elif t == "stop":
            out.extend(ptgen.STOP)
        elif t == "cbr":
            out.extend(ptgen.cbr(it["v"]))
        elif t == "mnt":
            out.extend(ptgen.mnt(P.val[it["v"]]))
        elif t == "pwrx":
            out.extend(ptgen.pwrx(it["v"], it["v"] ^ 3, it["v"] & 15))
        elif t == "pwre":
            out.extend(ptgen.pwre(it["v"] & 1, it["v"], it["v"] ^ 5))
        elif t == "exstop":
            out.extend(ptgen.exstop(it["ip"]))
        elif t == "mwait":
            out.extend(ptgen.mwait(P.val[it["v"]] & 0xff, it["v"] & 3))
        elif t == "cfe":
            v = it["v"]
            if it["c"] == "intr2":
                out.extend(ptgen.evd(0, P.val[v]))
            elif it["c"] in ("vmexit", "vmexitv"):
                if v & 1:
                    out.extend(ptgen.evd(1, P.val[v]))
                if v & 2:
                    out.extend(ptgen.evd(2, P.val[v + 1]))
            out.extend(ptgen.cfe(CFE[it["c"]], v, it["ip"]))
        elif t == "trig":
            out.extend(ptgen.trigb(it["v"], it["ip"], it["n"]))
        elif t == "raw":
            out.extend(it["b"])
        else:
            raise KeyError(t)
        k += 1
    pad()
    return out, psbs


def w(v):
    """A word as the drivers print it."""
    return [v >> 8 * i & 0xff for i in range(8)]


def canon(ev):
    """An event without what the flow does not determine: time, and whether
    a status update names the place where tracing was disabled."""
    p = ev["p"]
    if ev["su"] and ev["t"] == "enabled":
        p = dict(p, resumed=0)
    return {"t": ev["t"], "su": ev["su"], "ips": ev["ips"], "p": p}


def event(P, e):
    """The event as the driver prints it, without time."""
    t = e["t"]
    a = e.get("a", 0)
    ip = P.addr[a - 1] if a else 0
    v = e.get("v", 0)
    ips = 0
    q = None
    if t == "enabled":
        q = {"ip": w(ip), "resumed": e["res"]}
    elif t == "disabled":
        q, ips = {"ip": w(ip)}, int(not a)
    elif t == "async_disabled":
        q, ips = {"at": w(P.addr[e["at"] - 1]), "ip": w(ip)}, int(not a)
    elif t == "async_branch":
        q = {"from": w(ip), "to": w(P.addr[e["to"] - 1])}
    elif t == "paging":
        q = {"cr3": w(P.cr3[e["sp"] - 1]), "nr": P.nr[e["sp"] - 1]}
    elif t == "async_paging":
        q, ips = {"cr3": w(P.cr3[e["sp"] - 1]), "nr": P.nr[e["sp"] - 1],
                  "ip": w(ip)}, int(not a)
    elif t == "overflow":
        q, ips = {"ip": w(ip)}, int(not a)
    elif t == "exec_mode":
        q = {"mode": {64: 3, 32: 2, 16: 1}[e["m"]], "ip": w(ip)}
    elif t == "iflags":
        q = {"iflag": e["f"], "ip": w(ip)}
    elif t == "tsx":
        q, ips = {"intx": e["spec"], "abrt": e["ab"], "ip": w(ip)}, int(not a)
    elif t == "stop":
        q = {"z": 0}
    elif t == "vmcs":
        q = {"base": w(P.vmcs[e["vm"]])}
    elif t == "async_vmcs":
        q, ips = {"base": w(P.vmcs[e["vm"]]), "ip": w(ip)}, int(not a)
    elif t == "exstop":
        q, ips = {"ip": w(ip)}, int(not a)
    elif t == "mwait":
        q, ips = {"hints": w(P.val[v] & 0xff), "ext": w(v & 3),
                  "ip": w(ip)}, int(not a)
    elif t == "pwre":
        q = {"state": v & 15, "sub": (v ^ 5) & 15, "hw": v & 1}
    elif t == "pwrx":
        q = {"last": v, "deepest": v ^ 3, "int": v & 1,
             "store": v >> 2 & 1, "auto": v >> 3 & 1}
    elif t == "ptwrite":
        sz = P.ptwsz[v]
        q, ips = {"size": 8 if sz else 4,
                  "payload": w(P.val[v] & (M64 if sz else 0xffffffff)),
                  "ip": w(ip)}, int(not a)
    elif t == "cbr":
        q = {"ratio": v}
    elif t == "mnt":
        q = {"payload": w(P.val[v])}
    elif t in ("intr", "intr2"):
        q, ips = {"has_cr2": int(t == "intr2"), "vector": v,
                  "cr2": w(P.val[v] if t == "intr2" else 0),
                  "ip": w(ip)}, int(not a)
        t = "interrupt"
    elif t in ("iret", "smi", "init", "vmentry", "shutdown", "uiret"):
        q, ips = {"ip": w(ip)}, int(not a)
    elif t == "rsm":
        q, ips = {"z": 0}, 1
    elif t == "sipi":
        q, ips = {"vector": v}, 1
    elif t in ("vmexit", "vmexitv"):
        hv = int(t == "vmexitv")
        q, ips = {"has_vector": hv, "has_vmxr": v >> 1 & 1,
                  "has_vmxq": v & 1, "vector": v if hv else 0,
                  "vmxr": w(P.val[v + 1] if v & 2 else 0),
                  "vmxq": w(P.val[v] if v & 1 else 0),
                  "ip": w(ip)}, int(not a)
        t = "vmexit"
    elif t == "uintr":
        q, ips = {"vector": v, "ip": w(ip)}, int(not a)
    elif t == "trig":
        q, ips = {"trbv": v, "mult": v & 1, "icnt": 0,
                  "ip": w(ip)}, int(not a)
    return {"t": t, "su": e.get("su", 0), "ips": ips, "p": q}


def expected(P, out, iflags, start=0):
    """What the user sees, in the drivers' terms: ("i", ...) or ("e", ...)."""
    res = []
    for e in out:
        if e["k"] == "psb":
            res.append(("psb", e["on"]))
        elif e["k"] == "i":
            sp, vm = e["sp"], e["vm"]
            m = P.map[sp - 1][vm] - 1
            a = P.addr[e["a"] - 1]
            b = P.bytes[m][a]
            res.append(("i", a, len(b), bytes(b).hex(),
                        CLASS[P.code[m][e["a"] - 1]["c"]],
                        P.mode[e["a"] - 1], e["tx"], sp, vm))
        else:
            res.append(("e", e))
    return res
