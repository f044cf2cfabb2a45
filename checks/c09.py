"""C09: compressed returns go to behind the matching call."""
from flowrun import *

NONE = ["ovf", "psb", "intr", "leave", "adis", "abort"]


def chains(rng, n):
    """Programs with chains of calls around the limit, whose returns are
    compressed as far as the processor remembers."""
    out = []
    for _ in range(n):
        depth = rng.choice([3, 20, 60, 63, 64, 65, 66, 70, 80, 100])
        P = Program(rng, flags=flags(
            rng, comp=True, defer=rng.random() < .3, cfe=False, trig=False,
            os=False, filter=False,
            never=rng.choice([NONE, NONE + ["else", "exstop"], NONE,
                              ["ovf", "psb"], []])),
            nregions=rng.randrange(1, 3), chain=depth, span=1400,
            modes=rng.choice([(64,), (32,), (64,), (16,)]), size=8,
            steps=rng.choice([100, 200, 330]))
        P.entry0 = rng.random() < .9
        out.append(P)
    return out


def visible(b, lo=0):
    """The elements of out, from lo, that are returns of which the trace
    gives the target although the decoder knows no call that they could
    belong to: [index of the item in tr]; None where that is not clear."""
    P, tr, out, end = b
    items = {it["o"]: k for k, it in enumerate(tr) if "o" in it}
    d = 0
    res = []
    for k, e in enumerate(out):
        if k < lo:
            continue
        if e["k"] != "i":
            if e["k"] == "e" and e["t"] in ("disabled", "async_disabled"):
                # was a call among what led here
                d = max(d, 1)
            continue
        i = P.code[P.map[e["sp"] - 1][e["vm"]] - 1][e["a"] - 1]
        if i["c"] == "icall" or (i["c"] == "call" and not i["z"]):
            d = min(d + 1, 64)
        elif i["c"] == "ret":
            it = items.get(k + 1)
            if it is None:
                return res
            if tr[it]["t"] == "tip":
                if not d:
                    res.append(it)
            else:
                d -= 1
                if d < 0:
                    raise CheckError("a compressed return without a call")
    return res


def run(c):
    rng = c.rng
    R = Run(c)
    for rnd in range(c.n(1, 12)):
        progs = chains(rng, c.n(40, 60))
        progs += programs(rng, c.n(50, 60), flagf=lambda r: {
            "comp": r.random() < .8, "never": r.choice(
                [["ovf", "psb"], ["ovf", "intr", "leave", "adis"], []])},
            mix={"call": 9, "ret": 7, "icall": 4, "jcc": 4},
            steps=lambda r: r.choice([60, 200]))
        bs = behaviours(c, progs, len(progs) * c.n(7, 25), 350)
        for b in bs:
            P, tr, out, end = b
            enc = encode(rng, P, tr)
            for layer in rng.choice(["ib", "ib", "i", "b"]):
                cfg = blkcfg(rng) if layer == "b" else []
                R.behaviour(layer, b, rng, enc=enc, cfg=cfg,
                            kinds=rng.choice(KINDS))
            if P.flags["defer"]:
                continue
            v = visible(b)
            layer = rng.choice("ib")
            cfg = (["iflags"] if P.flags["iflags"] else []) + \
                (blkcfg(rng) if layer == "b" else [])
            exp = flat(P, expected(P, out, True), P.flags["iflags"])
            for it in (v if len(v) < 3 else rng.sample(v, 2)):
                # a compressed return that belongs to no call
                t = [dict(x) for x in tr]
                t[it] = {"t": "tnt", "b": [True]}
                R.add(layer, P, encode(rng, P, t)[0],
                      [upto(P, exp, index(P, out, tr[it]["o"]),
                            ("retstack_empty",))], cfg=cfg,
                      kinds=rng.choice(KINDS))
            # one that is indicated by a bit that says not taken
            rets = [k for k, x in enumerate(tr)
                    if x["t"] == "tnt" and "o" in x and P.code[P.map[
                        out[x["o"] - 1]["sp"] - 1][out[x["o"] - 1]["vm"]] - 1][
                            out[x["o"] - 1]["a"] - 1]["c"] == "ret"]
            if rets:
                it = rng.choice(rets)
                t = [dict(x) for x in tr]
                t[it] = {"t": "tnt", "b": [False]}
                R.add(layer, P, encode(rng, P, t)[0],
                      [upto(P, exp, index(P, out, tr[it]["o"]),
                            ("bad_retcomp",))], cfg=cfg)
            # calls before a synchronization do not count after it
            if rets:
                it = rng.choice(rets)
                k = tr[it]["o"] - 1
                e = out[k]
                # a trace that begins at this return
                sync = [{"t": "psb", "on": True},
                        {"t": "mode", "m": P.mode[e["a"] - 1], "f": 0}] + \
                    ([{"t": "pip", "sp": e["sp"]}] if P.flags["os"] else []) \
                    + ([{"t": "vmcs", "vm": e["vm"]}]
                       if P.flags["os"] and e["vm"] else []) + \
                    [{"t": "fup", "a": e["a"]}, {"t": "psbend"}]
                t = tr[:it] + sync + [{"t": "tnt", "b": [True]}]
                raw, psbs = encode(rng, P, t, noise=0)

                def first(rec, **kw):
                    return None

                def second(rec, e=e, P=P, **kw):
                    x = [r[2] for r in rec if r[0] == "x"]
                    if x != ["retstack_empty"]:
                        return "%s where a compressed return follows a " \
                            "synchronization" % x
                    n = [r for r in rec if len(r) > 2 and r[2] in ("i", "b")]
                    if len(n) > 1 or (n and n[0][3] != P.addr[e["a"] - 1]):
                        return "%s after a synchronization" % n
                    return None
                R.add(layer, P, raw, [first, second], cfg=cfg,
                      starts="f S%d" % psbs[-1], kinds=rng.choice(KINDS))
        if R.run():
            break


if __name__ == "__main__":
    main(run, "C09", "exploration")
