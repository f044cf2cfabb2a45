"""Seeded generators of trace byte sequences."""
from gen import w64

M64 = (1 << 64) - 1


def le(v, n):
    return [(v >> (8 * i)) & 0xff for i in range(n)]


IPSZ = {0: 0, 1: 2, 2: 4, 3: 6, 4: 6, 6: 8}


def ip(op, ipc, v):
    return [op | ipc << 5] + le(v, IPSZ[ipc])


def fup(ipc, v=0): return ip(0x1d, ipc, v)
def tip(ipc, v=0): return ip(0x0d, ipc, v)
def pge(ipc, v=0): return ip(0x11, ipc, v)
def pgd(ipc, v=0): return ip(0x01, ipc, v)


PSB = [2, 0x82] * 8
PSBEND = [2, 0x23]
OVF = [2, 0xf3]
STOP = [2, 0x83]
PAD = [0]


def tnt8(n, bits): return [(1 << n | bits & ((1 << n) - 1)) << 1]


def tnt64(n, bits): return [2, 0xa3] + le(1 << n | bits & ((1 << n) - 1), 6)
def pip(cr3, nr=0): return [2, 0x43] + le((cr3 >> 4 & ~1) | nr, 6)
def vmcs(base): return [2, 0xc8] + le(base >> 12, 5)
def cbr(r): return [2, 3, r, 0]
def tsc(v): return [0x19] + le(v, 7)
def tma(ctc, fc): return [2, 0x73] + le(ctc, 2) + [0] + le(fc & 0x1ff, 2)
def mtc(c): return [0x59, c & 0xff]
def mode_exec(csl, csd, iflag=0): return [0x99, csl | csd << 1 | iflag << 2]
def mode_tsx(intx, abrt): return [0x99, 0x20 | intx | abrt << 1]
def mnt(v): return [2, 0xc3, 0x88] + le(v, 8)
def exstop(ipb): return [2, 0xe2 if ipb else 0x62]
def mwait(h, e): return [2, 0xc2] + le(h, 4) + le(e, 4)
def pwre(hw, st, sub): return [2, 0x22, hw << 3, st << 4 | sub]
def pwrx(last, deep, w): return [2, 0xa2, last << 4 | deep, w, 0, 0, 0]
def ptw(plc, v, ipb): return [2, 0x12 | plc << 5 | ipb << 7] + \
    le(v, 4 if plc == 0 else 8)
def cfe(t, vec, ipb): return [2, 0x13, t | ipb << 7, vec]
def evd(t, v): return [2, 0x53, t] + le(v, 8)


def cyc(v):
    b = [3 | (v & 0x1f) << 3]
    v >>= 5
    if v:
        b[0] |= 4
    while v:
        x = (v & 0x7f) << 1
        v >>= 7
        b.append(x | (1 if v else 0))
    return b


class Prod:
    """Produces IP packets compressed against the last IP, with a ground
    truth of full addresses."""

    def __init__(self, rng):
        self.rng = rng
        self.last = None

    def reset(self):
        self.last = None

    def comp(self, v):
        rng = self.rng
        ok = [6]
        s = v & 0xffffffffffff
        if (s | (0xffff000000000000 if s >> 47 else 0)) == v:
            ok += [3, 3]
        l = self.last if self.last is not None else 0
        if l >> 16 == v >> 16:
            ok += [1, 1, 1]
        if l >> 32 == v >> 32:
            ok += [2, 2]
        if l >> 48 == v >> 48:
            ok += [4]
        return rng.choice(ok)

    def pkt(self, op, v):
        c = self.comp(v)
        self.last = v
        return ip(op, c, v)


def addr(rng, near=None):
    k = rng.random()
    if near is not None and k < .5:
        return (near + rng.choice([1, 2, 5, 0x10, 0x100, -4, -0x1000,
                                   rng.getrandbits(16)])) & M64
    if near is not None and k < .6:
        return (near & ~0xffffffff) | rng.getrandbits(32)
    if k < .7:
        return rng.choice([0x400000, 0x401000, 0x7fff12345000,
                           0xffffffff81000000, 0xffff880000000000,
                           0x7fffffffffff, 0xffff800000000000, 0])
    return w64(rng)


def cfgstr(rng, timing=True, errata=(), extra=()):
    f = []
    if timing:
        if rng.random() < .85:
            f += ["eax=%d" % rng.choice([2, 2, 1, 3, 7, 0xffffffff]),
                  "ebx=%d" % rng.choice([168, 168, 276, 1, 2, 4096,
                                         0xffffffff])]
        f.append("mtc=%d" % rng.choice([0, 3, 3, 3, 5, 7, 8, 9, 9, 10, 12,
                                        15]))
        if rng.random() < .7:
            f.append("nom=%d" % rng.choice([24, 16, 37, 1, 255]))
    for e in errata:
        f.append(e)
    for e in extra:
        f.append(e)
    return ",".join(f) or "none"


ERRATA = ["bdm70", "skd010", "apl11", "apl12", "skl168", "skd007", "skz84"]


class TraceGen:
    """Mostly legal packet sequences with PSB+ headers."""

    def __init__(self, rng, chaos=0.02, timing=.3, events=.25, near=True):
        self.rng = rng
        self.p = Prod(rng)
        self.out = []
        self.en = False
        self.chaos = chaos
        self.timing = timing
        self.events = events
        self.tsc = rng.getrandbits(rng.choice([8, 20, 40, 55]))
        self.ctc = rng.getrandbits(16)
        self.tma_ok = False
        self.at = 0x401000
        self.mode = None

    def emit(self, b):
        self.out.append(list(b))

    def bytes(self):
        return [x for p in self.out for x in p]

    def a(self):
        self.at = addr(self.rng, self.at)
        return self.at

    def time(self):
        rng = self.rng
        k = rng.random()
        if k < .2:
            self.tsc = (self.tsc + rng.getrandbits(rng.choice([4, 12, 24]))) \
                & ((1 << 56) - 1)
            self.emit(tsc(self.tsc))
            self.tma_ok = True
            if rng.random() < .7:
                self.tma()
        elif k < .5:
            self.ctc += rng.choice([8, 8, 8, 16, 64, 512, 1,
                                    rng.getrandbits(16)])
            self.emit(mtc(self.ctc >> rng.choice([3, 3, 3, 0, 9])))
        elif k < .85:
            self.emit(cyc(rng.choice([1, 0, 31, 32, rng.getrandbits(7),
                                      rng.getrandbits(12), 4095,
                                      rng.getrandbits(rng.randrange(1, 40)),
                                      rng.getrandbits(rng.randrange(1, 61))
                                      ])))
        else:
            self.emit(cbr(rng.choice([1, 8, 24, 32, 255,
                                      rng.randrange(256)]) or 1))

    def tma(self):
        rng = self.rng
        self.emit(tma(self.ctc & 0xffff, rng.choice([0, 1, 0x1ff,
                                                     rng.getrandbits(9)])))
        self.tma_ok = False

    def psb(self, en=None, ovf=False):
        rng = self.rng
        if en is None:
            en = self.en
        self.p.reset()
        self.emit(PSB)
        items = []
        if rng.random() < .4:
            items.append(lambda: (self.emit(tsc(self.tsc)),
                                  self.tma() if rng.random() < .6 else 0))
        if rng.random() < .3:
            items.append(lambda: self.emit(cbr(rng.randrange(1, 256))))
        if rng.random() < .3:
            items.append(lambda: self.emit(pip(rng.getrandbits(48) & ~31,
                                               rng.randrange(2))))
        if rng.random() < .2:
            items.append(lambda: self.emit(vmcs(rng.getrandbits(52))))
        if rng.random() < .2:
            items.append(lambda: self.emit(mode_tsx(rng.randrange(2), 0)))
        if rng.random() < .5:
            if self.mode is None:
                self.mode = self.rmode()
            m = self.mode
            items.append(lambda: self.emit(mode_exec(*m)))
            if rng.random() < .2:
                items.append(lambda: self.emit(mode_exec(*m)))
        if rng.random() < .1:
            items.append(lambda: self.emit(mnt(w64(rng))))
        if rng.random() < .1:
            items.append(lambda: self.emit(PAD * rng.randrange(1, 4)))
        if rng.random() < .1:
            items.append(lambda: self.emit(mtc(self.ctc >> 3)))
        if rng.random() < .1:
            items.append(lambda: self.emit(cyc(rng.getrandbits(8))))
        if en:
            def f():
                v = self.at
                c = rng.choice([6, 3]) if v >> 47 in (0, (1 << 17) - 1) else 6
                self.p.last = v
                self.emit(fup(c, v))
            items.append(f)
        rng.shuffle(items)
        for x in items:
            x()
        self.en = en
        if ovf:
            self.ovf()
        else:
            self.emit(PSBEND)

    def ovf(self):
        rng = self.rng
        self.emit(OVF)
        self.mode = None
        # the ip is not reset: a resolving packet carries a full ip
        self.p.reset()
        if rng.random() < .6:
            if rng.random() < .3:
                self.time()
            v = self.a()
            self.p.last = v
            self.emit(fup(6, v))
            self.en = True
        else:
            self.en = False

    def branch(self):
        rng = self.rng
        k = rng.random()
        if k < .45:
            n = rng.randrange(1, 7)
            self.emit(tnt8(n, rng.getrandbits(n)))
        elif k < .55:
            n = rng.choice([1, 8, 30, 46, 47])
            self.emit(tnt64(n, rng.getrandbits(n)))
        elif k < .9:
            self.emit(self.p.pkt(0x0d, self.a()))
        else:
            self.emit(tip(0))

    def fup(self):
        self.emit(self.p.pkt(0x1d, self.a()))

    def tipish(self, op):
        rng = self.rng
        if rng.random() < .15 and op != 0x11:
            self.emit([op])
        else:
            self.emit(self.p.pkt(op, self.a()))

    def rmode(self):
        rng = self.rng
        return rng.choice([(1, 0), (1, 0), (0, 1), (0, 0), (1, 1)]) + \
            (rng.randrange(2),)

    def modes(self):
        if self.rng.random() < .3:
            self.mode = self.rmode()
            self.emit(mode_exec(*self.mode))

    def async_(self):
        """FUP-bound things, then an asynchronous branch."""
        rng = self.rng
        if rng.random() < .25:
            if rng.random() < .5:
                self.emit(evd(0, w64(rng)))
                self.emit(cfe(1, rng.randrange(256), 0))
            else:
                for t in (1, 2):
                    if rng.random() < .5:
                        self.emit(evd(t, w64(rng)))
                self.emit(cfe(rng.choice([8, 9]), rng.randrange(256), 0))
        elif rng.random() < .25:
            self.emit(cfe(rng.choice([3, 4, 5, 6, 12]), rng.randrange(256),
                          0))
        if rng.random() < .15:
            self.emit(mode_tsx(0, 1))
        self.fup()
        if rng.random() < .3:
            self.time()
        if rng.random() < .2:
            self.emit(vmcs(rng.getrandbits(52)))
        if rng.random() < .3:
            self.emit(pip(rng.getrandbits(48) & ~31, rng.randrange(2)))
            if rng.random() < .3:
                self.emit(vmcs(rng.getrandbits(52)))
        self.modes()
        if rng.random() < .25:
            self.tipish(0x01)
            self.en = False
        else:
            self.tipish(0x0d)

    def bound(self):
        """Packets bound to a FUP of their own."""
        rng = self.rng
        n = rng.randrange(1, 3)
        for _ in range(n):
            k = rng.randrange(6)
            if k == 0:
                self.emit(mode_tsx(rng.randrange(2), 0))
            elif k == 1:
                self.emit(ptw(rng.randrange(2), w64(rng), 1))
            elif k == 2:
                if rng.random() < .5:
                    self.emit(mwait(rng.getrandbits(32), rng.getrandbits(4)))
                self.emit(exstop(1))
            elif k == 3:
                t = rng.choice([1, 2, 3, 6, 7, 8, 9, 10, 12, 13])
                if t == 1 and rng.random() < .5:
                    self.emit(evd(0, w64(rng)))
                if t in (8, 9) and rng.random() < .5:
                    self.emit(evd(rng.choice([1, 2]), w64(rng)))
                self.emit(cfe(t, rng.randrange(256), 1))
            elif k == 4:
                self.emit(trigp(rng, ipb=1))
            else:
                self.modes()
                self.emit(ptw(1, w64(rng), 1))
        self.fup()
        if rng.random() < .4 and self.en:
            self.tipish(0x0d)

    def free(self):
        """Stand-alone packets."""
        rng = self.rng
        k = rng.randrange(11)
        if k == 0:
            self.emit(ptw(rng.randrange(2), w64(rng), 0))
        elif k == 1:
            self.emit(exstop(0))
        elif k == 2:
            self.emit(mwait(rng.getrandbits(32), rng.getrandbits(4)))
            self.emit(exstop(0))
        elif k == 3:
            self.emit(pwre(rng.randrange(2), rng.randrange(16),
                           rng.randrange(16)))
        elif k == 4:
            self.emit(pwrx(rng.randrange(16), rng.randrange(16),
                           rng.choice([1, 2, 4, 8])))
        elif k == 5:
            self.emit(mnt(w64(rng)))
        elif k == 6:
            self.emit(vmcs(rng.getrandbits(52)))
            if rng.random() < .5:
                self.emit(pip(rng.getrandbits(48) & ~31, rng.randrange(2)))
        elif k == 7:
            self.emit(pip(rng.getrandbits(48) & ~31, rng.randrange(2)))
        elif k == 8:
            self.emit(cfe(rng.choice([2, 7, 10, 13]), rng.randrange(256), 0))
        elif k == 9:
            self.emit(trigp(rng, ipb=0))
        else:
            self.emit(PAD * rng.randrange(1, 9))

    def step(self):
        rng = self.rng
        k = rng.random()
        if rng.random() < self.timing:
            self.time()
            return
        if k < .06:
            self.psb()
            return
        if k < .09:
            self.ovf() if rng.random() < .6 else self.psb(ovf=True)
            return
        if not self.en:
            if k < .5:
                self.modes()
                self.emit(self.p.pkt(0x11, self.a()))
                self.en = True
            elif k < .6:
                self.emit(STOP)
            elif k < .7:
                self.emit(mode_tsx(rng.randrange(2), rng.randrange(2)))
            elif k < .8:
                t = rng.choice([1, 3, 4, 5, 6, 8, 9, 12])
                self.emit(cfe(t, rng.randrange(256), 0))
            else:
                self.free()
            return
        if k < .09 + self.events:
            x = rng.random()
            if x < .35:
                self.async_()
            elif x < .65:
                self.bound()
            else:
                self.free()
            return
        if k < .15 + self.events:
            self.tipish(0x01)
            self.en = False
            return
        if k < .2 + self.events:
            self.modes()
            self.tipish(0x0d)
            return
        self.branch()

    def trace(self, steps, psb=True):
        rng = self.rng
        if psb:
            self.psb(en=rng.random() < .5)
        for _ in range(steps):
            self.step()
            if rng.random() < self.chaos:
                self.emit(rand_bytes_packet(rng))
        return self


def trigp(rng, ipb=None, icntv=None, icnt=None):
    """A TRIG packet."""
    if ipb is None:
        ipb = rng.randrange(2)
    if icntv is None:
        icntv = 1 if ipb else rng.randrange(2)
    if icnt is None:
        icnt = 0 if ipb else rng.choice([0, 0, 1, rng.getrandbits(16)])
    mult = rng.randrange(2)
    trbv = rng.randrange(256)
    return [0xd9, ipb << 7 | icntv << 6 | mult << 5, trbv] + \
        (le(icnt, 2) if icntv else [])


def trigb(v, ipb, n):
    """A TRIG packet with an IP, an instruction count, or neither."""
    return [0xd9, (1 if ipb else 0) << 7 | (1 if ipb or n >= 0 else 0) << 6 |
            (v & 1) << 5, v] + \
        (le(0 if ipb else n, 2) if ipb or n >= 0 else [])


def rand_bytes_packet(rng):
    """Any packet, legal here or not."""
    k = rng.randrange(30)
    v = w64(rng)
    n = rng.randrange(1, 7)
    return [
        lambda: fup(rng.choice([0, 1, 2, 3, 4, 6]), v),
        lambda: tip(rng.choice([0, 1, 2, 3, 4, 6]), v),
        lambda: pge(rng.choice([0, 1, 2, 3, 4, 6]), v),
        lambda: pgd(rng.choice([0, 1, 2, 3, 4, 6]), v),
        lambda: tnt8(n, v), lambda: tnt64(rng.randrange(1, 48), v),
        lambda: pip(v, v & 1), lambda: vmcs(v), lambda: cbr(v & 255),
        lambda: tsc(v), lambda: tma(v & 0xffff, v >> 20),
        lambda: mtc(v), lambda: mode_exec(v & 1, v >> 1 & 1, v >> 2 & 1),
        lambda: mode_tsx(v & 1, v >> 1 & 1), lambda: mnt(v),
        lambda: exstop(v & 1), lambda: mwait(v, v >> 32),
        lambda: pwre(v & 1, v >> 1 & 15, v >> 5 & 15),
        lambda: pwrx(v & 15, v >> 4 & 15, v >> 8 & 15),
        lambda: ptw(rng.randrange(2), v, rng.randrange(2)),
        lambda: cfe(rng.randrange(16), v & 255, rng.randrange(2)),
        lambda: evd(rng.randrange(4), v), lambda: trigp(
            rng, rng.randrange(2), rng.randrange(2),
            rng.choice([0, 1, 77])),
        lambda: cyc(v >> rng.randrange(4, 64)), lambda: PSB,
        lambda: PSBEND, lambda: OVF, lambda: STOP, lambda: PAD,
        lambda: [rng.randrange(256)]][k]()


def mutate(rng, pkts):
    """Delete, duplicate, swap, insert or corrupt packets."""
    pkts = [list(p) for p in pkts]
    for _ in range(rng.choice([1, 1, 2, 3])):
        if not pkts:
            break
        i = rng.randrange(len(pkts))
        k = rng.random()
        if k < .25:
            del pkts[i]
        elif k < .4:
            pkts.insert(i, list(pkts[rng.randrange(len(pkts))]))
        elif k < .55:
            j = rng.randrange(len(pkts))
            pkts[i], pkts[j] = pkts[j], pkts[i]
        elif k < .8:
            pkts.insert(i, rand_bytes_packet(rng))
        elif k < .9 and pkts[i]:
            pkts[i][rng.randrange(len(pkts[i]))] = rng.randrange(256)
        else:
            pkts = pkts[:i + 1]
            if pkts[-1]:
                pkts[-1] = pkts[-1][:rng.randrange(len(pkts[-1]) + 1)]
    return pkts
