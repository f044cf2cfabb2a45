"""C22: configurations are taken over completely, privately, compatibly."""
from vlib import *
import decgen, ptgen
from ptgen import *
from gen import w64
from pktcheck import drive, check_cases
from deccheck import check_histories

CPU = (os.path.join(REPO, "libipt/src/pt_cpu.c"),)


def run(c):
    rng = c.rng
    cases = []
    exe = harness("cfg.c", "asan", extra_src=CPU)
    r = run_driver(exe, [], b"C p 0 0 0 00\n")
    info = json.loads(r)
    full, mn = info["sizeof"], info["min"]

    def add(layer, size, b, e, n=None):
        n = size if n is None else n
        by = bytes(rng.getrandbits(8) for _ in range(n))
        cases.append("C %s %d %d %d %s" % (layer, size, b, e, by.hex() or "-"))
    for layer in "npeqib":
        for size in range(mn - 2, full + 1):
            add(layer, size, 0, 64)
        for size in (full + 1, full + 8, full + 100):
            add(layer, size, 0, rng.randrange(65))
        for size in (0, 1, 8, mn - 1):
            add(layer, size, 0, 64)
        for b, e in ((-1, 64), (0, -1), (-1, -1), (5, 4), (64, 0), (0, 0),
                     (5, 5), (64, 64), (0, 1)):
            for size in (mn, full, full + 8):
                add(layer, size, b, e)
    for _ in range(c.n(1000, 20000)):
        add(rng.choice("npeqib"), rng.randrange(0, full + 40),
            rng.choice([0, 0, rng.randrange(64), -1 if rng.random() < .2
                        else 3]), rng.choice([64, rng.randrange(65)]))
    # address filters
    for _ in range(c.n(3000, 60000)):
        base = rng.choice([0, 0x1000, w64(rng)])
        pts = [max(0, min(2**64 - 1, base + rng.randrange(-3, 12)))
               for _ in range(9)]
        s = "F"
        for k in range(4):
            cc = rng.choice([0, 1, 2, 1, 2, 3 if rng.random() < .2 else 0])
            s += " %d %x %x" % (cc, pts[2 * k], pts[2 * k + 1])
        cases.append(s + " %x" % rng.choice(pts + [pts[8]]))
    # cpu strings
    def num():
        v = rng.choice([0, 1, 6, 7, 15, 255, 256, 0x4e, rng.randrange(70000)])
        return rng.choice(["%d", "%d", "0x%x", "0X%X", "0%o"]) % v
    for _ in range(c.n(800, 10000)):
        s = "/".join(num() for _ in range(rng.choice([1, 2, 2, 3, 3, 4])))
        if rng.random() < .2:
            k = rng.randrange(len(s) + 1)
            s = s[:k] + rng.choice(["x", "/", "g", "//", "9"]) + s[k:]
        if re.search(r"/$|^$|0[xX](/|$)|0[xX][^0-9a-fA-F]", s):
            continue
        cases.append("P " + s)
    check_cases(c, cases, "ConfigTrace", src="cfg.c", extra_src=CPU)
    # every field takes effect: histories with structures of every size
    h = []
    for k in range(c.n(2500, 40000)):
        size = rng.choice([full, full + 8, mn, rng.randrange(mn, full),
                           rng.randrange(mn, info["flags_end"] + 1)])
        pk = decgen.trace(rng, "legal", timing=.4)
        if k % 3 == 0:
            # the fields about time
            pk = [PSB, tsc(1 << 20), tma(1, 2), cbr(12), PSBEND] + [
                rng.choice([OVF, cyc(rng.randrange(5000)), tsc(
                    rng.getrandbits(30)), mtc(j), mtc(j), tnt8(1, 1),
                    cbr(20), ptw(0, 1, 0), tma(9, 9)])
                for j in range(rng.randrange(5, 20))]
        cfg = ptgen.cfgstr(
            rng, errata=[e for e in ptgen.ERRATA if rng.random() < .5],
            extra=[x for x in ("iflags", "keep", "cb=2") if rng.random() < .5])
        h.append(decgen.history(rng, rng.choice("peq"), pkts=pk,
                                ops=["F R200"],
                                cfg="%s,size=%d" % (cfg, size)))
    check_histories(c, h)


if __name__ == "__main__":
    main(run, "C22", "exploration")
