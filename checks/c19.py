"""C19: decoding from any sync point gives the rest of the same flow."""
from flowrun import *


def known(exp, k):
    """Whether what follows the k-th PSB can be decoded without what precedes
    it: the mode is not known if tracing resumes with an overflow."""
    n = -1
    for i, e in enumerate(exp):
        if e[0] == "psb":
            n += 1
            if n == k:
                break
    if e[1]:
        return True
    # nor is it known whether this is inside of a transaction
    for x in exp[i:]:
        if x[0] == "e" and x[1]["t"] == "tsx":
            break
        if x[0] == "i" and x[6]:
            return False
    for x in exp[i:]:
        if x[0] == "psb" and x[1]:
            return True
        if x[0] == "e" and x[1]["t"] == "enabled":
            return True
        if x[0] == "e" and x[1]["t"] == "overflow" and x[1]["a"]:
            return False
    return True


def part(exp, k):
    """What the trace from the k-th PSB to the next one tells."""
    r = suffix(exp, k)
    n = [i for i, e in enumerate(r) if e[0] == "psb"]
    if len(n) < 2:
        return r, False
    i = n[1]
    on = r[i][1]
    r = r[:i]
    if on:
        # the next PSB+ tells this, at once
        j = max(x for x in range(i) if r[x][0] == "e" and
                r[x][1]["t"] == "enabled" and r[x][1]["su"])
        if j:
            r = r[:j] + r[j + 1:]
    return r, True


def synced(err="", off=None):
    """A synchronization with that result, and nothing else."""
    def f(rec, **kw):
        if rec[0][2] != err or len(rec) > 1 and rec[1][0] != "end":
            return "%s where synchronization gives %s" % (rec[:3], err or off)
    return f


def at(off, x):
    """Synchronization to that offset, then x."""
    def f(rec, P=None, **kw):
        if rec[0][3:] != [off]:
            return "%s: the synchronization point at %d is skipped" % (
                rec[0], off)
        if callable(x):
            return x(rec, **kw)
        return compare(P, x[0], x[1], rec, **kw)
    return f


def run(c):
    rng = c.rng
    R = Run(c)
    for rnd in range(c.n(1, 12)):
        progs = programs(rng, c.n(90, 110), flagf=lambda r: {
            "more": ["psb"] + ([r.choice(["ovf", "leave", "adis", "intr"])]
                               if r.random() < .3 else [])},
            mix=lambda r: r.choice([{}, {"call": 6, "ret": 5}]))
        bs = behaviours(c, progs, len(progs) * c.n(5, 20), 250)
        for b in bs:
            P, tr, out, end = b
            raw, psbs = encode(rng, P, tr)
            ex = expected(P, out, True)
            ifl = P.flags["iflags"]
            cfg0 = ["iflags"] if ifl else []
            n = len(psbs)
            ok = [k for k in range(n) if known(ex, k)]
            suf = {k: flat(P, suffix(ex, k), ifl) for k in ok}

            def add(raw, exps, starts, layer=None):
                layer = layer or rng.choice("ib")
                R.add(layer, P, raw, exps,
                      cfg=cfg0 + (blkcfg(rng) if layer == "b" else []),
                      kinds=rng.choice(KINDS), starts=starts)

            def begin(k, layer="i"):
                """The first calls after synchronizing there."""
                return lambda rec, P=P, x=suf[k], end=end, **kw: compare(
                    P, x, end, rec, **dict(kw, prefix=2))
            # at some of its sync points, in any order, with or without
            # decoding to the end
            ks = [rng.choice(ok) for _ in range(min(6, len(ok) + 1))]
            st, exps = [], []
            for k in ks:
                if rng.random() < .4:
                    st.append("S%d/%d" % (psbs[k], rng.choice(
                        [0, 1, 2, 3, 8, 30])))
                    exps.append(begin(k))
                else:
                    st.append("S%d" % psbs[k])
                    exps.append((suf[k], end))
            add(raw, exps, " ".join(st))
            # backwards and forwards.  The decoder may have read past some of
            # them: there is no telling which one is next, but what it finds
            # there.

            def there(rec, P=P, suf=suf, end=end, psbs=psbs, **kw):
                if rec[0][2]:
                    return rec[0][2] != "eos" and "sync: %s" % rec[0]
                if rec[0][3] not in psbs:
                    return "synchronized to %s" % rec[0]
                x = suf[psbs.index(rec[0][3])]
                if "/" in rec[0][1]:
                    kw["prefix"] = 2
                return compare(P, x, end, rec, **kw)
            if len(ok) == n and n < 12 and rng.random() < .6:
                st = [rng.choice("BBBf") + "/%d" % rng.choice([0, 0, 1, 5])
                      if rng.random() < .7 else rng.choice("BBBf")
                      for _ in range(rng.randrange(2, 12))]
                add(raw, [there] * len(st), " ".join(st))
            # forwards, from one to the next without decoding
            if len(ok) == n and n < 12 and rng.random() < .5:
                # it may have read past some of them: there is no telling
                # which one is next
                j = rng.randrange(n)
                last = [-1]

                def next_(rec, P=P, suf=suf, end=end, psbs=psbs, last=last,
                          size=len(raw), **kw):
                    off = rec[0][3] if len(rec[0]) > 3 else None
                    if rec[0][2] == "eos" and last[0] >= 0:
                        last[0] = size
                        return None
                    if off not in psbs or off <= last[0]:
                        return "synchronized to %s after %d" % (off, last[0])
                    last[0] = off
                    x = suf[psbs.index(off)]
                    if rec[0][1] == "f":
                        return compare(P, x, end, rec, **kw)
                    return compare(P, x, end, rec, **dict(kw, prefix=2))
                add(raw, [next_] * (j + 1), " ".join(["f/0"] * j + ["f"]))
            # the parts on their own
            k = rng.choice(ok)
            p, more = part(ex, k)
            e = psbs[k + 1] if k + 1 < n else len(raw)
            fp = flat(P, p, ifl)
            if more:
                add(raw[psbs[k]:e], [lambda rec, P=P, fp=fp, end=end,
                                           **kw: compare(
                    P, fp, end, rec, **dict(kw, prefix=1))], "f")
            else:
                add(raw[psbs[k]:e], [(fp, end)], "f")
            # an error in one of them: the next one is not affected
            if rng.random() < .7 and len(ok) == n:
                bad = [5] * 2 if rng.random() < .5 else [2, 0xff]
                pos = [i for i, x in enumerate(tr) if i > 3 and x["t"] in (
                    "tnt", "tip", "ptw", "stop", "pge", "cbr", "trig",
                    "ovf")]
                if not pos:
                    continue
                i = rng.choice(pos)
                t = tr[:i] + [{"t": "raw", "b": bad}] + tr[i:]
                raw2, psbs2 = encode(rng, P, t)
                j = sum(x["t"] == "psb" for x in tr[:i])
                exps = [lambda rec, **kw: None]
                if j < n:
                    exps.append(at(psbs2[j], lambda rec, P=P, j=j, suf=suf,
                                   end=end, **kw: compare(
                                       P, suf[j], end, rec, **kw)))
                exps.append(synced("eos"))
                add(raw2, exps, "F")
        if R.run():
            break


if __name__ == "__main__":
    main(run, "C19", "exploration")
