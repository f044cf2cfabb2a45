"""Histories of images and section caches for harness/image.c."""
import json
from vlib import *
from pktcheck import drive

WRAP = tuple("-Wl,--wrap=" + x for x in (
    "malloc", "calloc", "realloc", "strdup", "free", "mmap", "mmap64",
    "munmap", "mtx_init", "mtx_destroy", "pt_bcache_alloc",
    "pt_bcache_free"))
CFG = "INIT TraceInit\nNEXT TraceNext\n"

BASES = [0x400000, 0x410000, 0x7ffff7a00000, 0xffffffff81000000,
         0xffff880000010000, 0x10000, 0x20000]


class Hist:
    """One random history; keeps a rough picture to aim at interesting
    operations, judging is left to the specification."""

    def __init__(self, rng, images, caches, nops, focus):
        self.rng = rng
        self.ims = images
        self.cas = caches
        self.base = rng.choice(BASES)
        self.sizes = [rng.choice([24, 40, 64])]
        self.sizes += [rng.choice([16, 40, 300, 5000, 9000])
                       for _ in range(rng.randrange(1, 3))]
        if rng.random() < .1:
            self.sizes.append(70000)
        self.gone = set()
        self.edges = [0]
        self.spaces = rng.choice([
            [(-1, -1)], [(-1, -1), (1, -1)], [(1, -1), (2, -1)],
            [(1, -1), (-1, 1), (1, 1), (-1, -1)],
            [(0, 0), (1, 0), (0, 1), (1, 1)],
            [(1, 1), (1, 2), (2, 1), (-1, -1), (1, -1), (-1, 2)]])
        self.ids = {x: [] for x in self.cas}
        self.hs = {}
        self.ops = []
        for _ in range(nops):
            r = rng.random()
            if r < .03 * focus.get("fail", 1):
                self.ops.append("fail,%d" % rng.choice([0, 0, 1, 1, 2, 3, 4]))
            elif r < .05 * focus.get("fail", 1):
                self.ops.append("nomap")
            k = rng.choices(list(focus["w"]), list(focus["w"].values()))[0]
            s = getattr(self, "g_" + k)()
            if s is None:
                if self.ops and self.ops[-1][:4] in ("fail", "noma"):
                    self.ops.pop()
                continue
            self.ops.append(s)
        if self.ops and self.ops[-1][:4] in ("fail", "noma"):
            self.ops.pop()

    def line(self):
        return "%x %s %s" % (self.base, ",".join(map(str, self.sizes0)),
                             " ".join(self.ops))

    # -- parts
    def file(self):
        return self.rng.randrange(len(self.sizes))

    def part(self, f):
        rng = self.rng
        n = self.sizes[f]
        r = rng.random()
        if r < .03:
            off = n + rng.randrange(3)
        elif r < .4:
            off = 0
        elif n > 4096 and r < .6:
            off = min(n - 1, rng.choice([4095, 4096, 4097, 8192]))
        else:
            off = rng.randrange(n)
        r = rng.random()
        if r < .3:
            size = rng.choice([n, n - off, n + 7, 100000])
        elif r < .35 and n > 4096:
            size = rng.randrange(1, n + 100)
        else:
            size = rng.randrange(1, 24)
        return off, max(1, size)

    def space(self, query=False):
        rng = self.rng
        s = rng.choice(self.spaces)
        if query and rng.random() < .15:
            s = (rng.choice([-1, 0, 1, 2, 3]), rng.choice([-1, 0, 1, 2]))
        modes = [0, 0, 3]
        if s == (-1, -1):
            modes += [1, 1, 4]
        if s[1] == -1:
            modes += [2]
        return "%d,%d" % s, rng.choice(modes)

    def addr(self, query=False):
        rng = self.rng
        if rng.random() < .6:
            a = rng.choice(self.edges) + rng.choice([-1, 0, 0, 1, 2, -2, 5])
        else:
            a = rng.randrange(60)
        if rng.random() < .03 and query:
            a = -rng.randrange(1, 100)
        return a if query else max(0, a)

    def covered(self, a, n):
        self.edges = (self.edges + [a, a + n])[-12:]

    # -- operations
    def g_add(self):
        f = self.file()
        off, size = self.part(f)
        a = self.addr()
        s, m = self.space()
        self.covered(a, min(size, max(0, self.sizes[f] - off)))
        return "add,%d,%d,%d,%d,%s,%d,%d" % (
            self.rng.choice(self.ims), f, off, size, s, a, m)

    def g_cadd(self):
        c = self.rng.choice(self.cas)
        rng = self.rng
        if self.ids[c] and rng.random() < .5:
            # the same or almost the same request again
            f, off, size, a = rng.choice(self.ids[c])
            r = rng.random()
            if r < .3:
                a = self.addr()
            elif r < .5:
                size = rng.choice([100000, self.sizes[f], size + 1,
                                   max(1, self.sizes[f] - off)])
            elif r < .6:
                off, size = self.part(f)
            elif r < .7:
                f = self.file()
        else:
            f = self.file()
            off, size = self.part(f)
            a = self.addr()
        self.ids[c].append((f, off, size, a))
        self.covered(a, min(size, max(0, self.sizes[f] - off)))
        return "cadd,%d,%d,%d,%d,%d" % (c, f, off, size, a)

    def isid(self, c):
        rng = self.rng
        n = len(self.ids[c])
        r = rng.random()
        if r < .06:
            return rng.choice([0, -1, n + 1, n + 5, 65535, 65536, 65537,
                               2**31 - 1, -2**31, 70000])
        return rng.randrange(1, max(2, n + 1))

    def g_addc(self):
        c = self.rng.choice(self.cas)
        if not self.ids[c]:
            return self.g_cadd()
        s, m = self.space()
        return "addc,%d,%d,%d,%s,%d" % (
            self.rng.choice(self.ims), c, self.isid(c), s, m)

    def g_copy(self):
        if self.ops and self.ops[-1].startswith("fail"):
            return None
        return "copy,%d,%d" % (self.rng.choice(self.ims),
                               self.rng.choice(self.ims))

    def g_rmf(self):
        s, m = self.space()
        return "rmf,%d,%d,%s,%d" % (self.rng.choice(self.ims), self.file(),
                                    s, m)

    def g_rma(self):
        s, m = self.space()
        return "rma,%d,%s,%d" % (self.rng.choice(self.ims), s, m)

    def g_cb(self):
        return "cb,%d,%d" % (self.rng.choice(self.ims),
                             self.rng.randrange(5))

    def count(self):
        return self.rng.choice([1, 1, 2, 3, 8, 15, 15, 15, 16, 40, 64, 65,
                                300, 5000, 65535])

    def g_read(self):
        s, _ = self.space(True)
        return "read,%d,%d,%s,%d" % (self.rng.choice(self.ims), self.count(),
                                     s, self.addr(True))

    def g_cread(self):
        c = self.rng.choice(self.cas)
        if not self.ids[c]:
            return self.g_cadd()
        i = self.isid(c)
        if 1 <= i <= len(self.ids[c]):
            f, off, size, a = self.ids[c][i - 1]
            e = a + min(size, max(0, self.sizes[f] - off))
            a = self.rng.choice([a, a, a + 1, a - 1, e - 1, e, e - 2,
                                 self.rng.randrange(a, e + 1),
                                 self.addr(True)])
        else:
            a = self.addr(True)
        n = self.rng.choice([0, 1, 1, 7, 15, 64, 4096, 5000, 65535, 65536,
                             80000, 24, 31])
        return "cread,%d,%d,%d,%d" % (c, i, n, a)

    def g_limit(self):
        rng = self.rng
        return "limit,%d,%d" % (rng.choice(self.cas), rng.choice(
            [-1, 0, 0, 1, 10, 40, 64, 100, 300, 700, 4200, 10000, 100000,
             rng.randrange(200)]))

    def g_hold(self):
        h = self.rng.choice([1, 2])
        s, _ = self.space(True)
        im = self.rng.choice(self.ims)
        a = self.addr(True)
        self.hs[h] = (im, a)
        return "hold,%d,%d,%d,%s,%d" % (h, im, self.count(), s, a)

    def g_hread(self):
        if not self.hs:
            return None
        h = self.rng.choice(list(self.hs))
        a = self.hs[h][1] + self.rng.choice([0, 1, 2, 5, -1, -3, 10, 20])
        return "hread,%d,%d,%d" % (h, self.count(), a)

    def g_hval(self):
        if not self.hs:
            return None
        h = self.rng.choice(list(self.hs))
        im, a = self.hs[h]
        if self.rng.random() < .1:
            im = self.rng.choice(self.ims)
        return "hval,%d,%d,%d" % (h, im, a + self.rng.choice(
            [0, 0, 0, 1, 3, -1, 12]))

    def g_bc(self):
        if not self.hs:
            return None
        return "bc,%d" % self.rng.choice(list(self.hs))

    def g_drop(self):
        if not self.hs:
            return None
        return "drop,%d" % self.rng.choice(list(self.hs))

    def g_ifree(self):
        if self.ops and self.ops[-1].startswith("fail"):
            return None
        return "ifree,%d" % self.rng.choice(self.ims)

    def g_cfree(self):
        if self.ops and self.ops[-1].startswith("fail"):
            return None
        c = self.rng.choice(self.cas)
        self.ids[c] = []
        return "cfree,%d" % c

    def g_grow(self):
        f = self.file()
        if f in self.gone or self.sizes[f] > 60000:
            return None
        if self.ops and self.ops[-1][:4] in ("fail", "noma"):
            return None
        self.sizes[f] += self.rng.choice([1, 5, 20, 4096])
        return "grow,%d,%d" % (f, self.sizes[f])

    def g_unlink(self):
        f = self.file()
        if self.ops and self.ops[-1][:4] in ("fail", "noma"):
            return None
        self.gone.add(f)
        return "unlink,%d" % f


def history(rng, images, caches, nops, focus):
    import random
    st = rng.getrandbits(64)
    h = Hist(random.Random(st), images, caches, 0, focus)
    s0 = list(h.sizes)
    h = Hist(random.Random(st), images, caches, nops, focus)
    h.sizes0 = s0
    return h.line()


IMG = {"add": 10, "addc": 4, "cadd": 3, "copy": 2, "rmf": 1, "rma": .7,
       "cb": 1, "read": 14, "hold": 2, "hread": 1, "hval": 2, "drop": .6,
       "limit": .4, "ifree": .3, "cfree": .2, "bc": .3, "cread": .5}
CACHE = {"cadd": 8, "cread": 10, "limit": 2, "addc": 4, "read": 4, "hold": 3,
         "bc": 3, "hread": 1, "drop": 2, "rma": .4, "cfree": .4, "ifree": .3,
         "add": .5, "hval": 1, "copy": .5}


def check_images(c, cases, chunk=3000):
    exe = harness("image.c", "asan", link=WRAP)
    total = 0
    for a in range(0, len(cases), chunk):
        part = cases[a:a + chunk]
        lines = drive(c, exe, part, args=(tmpdir(),))
        if len(lines) < len(part):
            return
        total += sum(l.count(b'"op":') for l in lines)
        bad = validate(c, "ImageTrace", lines, CFG, cases=part,
                       deadlock=True)
        for idx, st in bad:
            rec = json.loads(lines[idx])
            m = re.search(r"/\\ k = (\d+)", st)
            k = int(m.group(1)) if m else 0
            op = rec["ops"][k] if k < len(rec["ops"]) else rec["bal"]
            again = run_driver(exe, [tmpdir()], (part[idx] + "\n").encode())
            c.violation("%s: operation %d of the recorded history is not "
                        "allowed by ImageTrace: %s" %
                        (c.pid, k + 1, json.dumps(op)[:300]),
                        {"case": part[idx], "driver": "image.c",
                         "call": k + 1, "op": op,
                         "reproduced": again.strip() == lines[idx].strip(),
                         "spec_state": st})
        for k in range(0, len(part), max(1, len(part) // 2)):
            c.sample({"case": part[k][:400], "recorded":
                      lines[k].decode()[:600]}, 4)
        if c.viol:
            break
    c.cov["calls"] = c.cov.get("calls", 0) + total


MC = """SPECIFICATION Spec
INVARIANT History Disjoint WellFormed CopyEqual CopyOrder
CONSTANTS MaxOps = %d
MaxAddr = %d
Sizes = {%s}
"""


def check_model(c, ops, addr, sizes):
    """Image.tla says what was meant, for all short histories."""
    r = tlc("ImageMC", MC % (ops, addr, sizes), timeout=800, heap="12g")
    c.add_tlc(r)
    if not r.ok:
        raise CheckError("Image.tla does not have its properties:\n" +
                         r.out[-3000:])
