"""C06: branch queries answer in trace order, events first."""
from vlib import *
import decgen, ptgen
from deccheck import check_histories


def run(c):
    rng = c.rng
    cases = []
    for k in range(c.n(6000, 150000)):
        kind = ["legal", "legal", "legal", "mut", "rand"][k % 5]
        ops = None
        r = rng.random()
        if r < .3:
            ops = ["F R400"]
        elif r < .7:
            # mostly what the status asks for, sometimes something else
            n = rng.randrange(20, 80)
            w = rng.choice(["XXXXXXXXCIE", "XXXXCIE", "CIE", "CCCCI", "XXI",
                            "XXC", "XXE"])
            o = ["F"] + [rng.choice(w) for _ in range(n)]
            if rng.random() < .1:
                o.insert(rng.randrange(len(o)), rng.choice("FB"))
            ops = [" ".join(o)]
        cases.append(decgen.history(rng, "q", kind, ops=ops,
                                    timing=rng.choice([0, .1, .3])))
    # long runs of tnt packets: more indicators than fit into the cache
    for k in range(c.n(500, 5000)):
        g = ptgen.TraceGen(rng, timing=0)
        g.psb(en=True)
        for _ in range(rng.randrange(1, 30)):
            n = rng.choice([1, 2, 6, 5, 47, 46, 30])
            g.emit(ptgen.tnt8(n, rng.getrandbits(n)) if n <= 6 else
                   ptgen.tnt64(n, rng.getrandbits(n)))
            if rng.random() < .1:
                g.emit(ptgen.tip(3, rng.getrandbits(46)))
            if rng.random() < .1:
                g.emit(ptgen.ptw(0, 77, 0))
        cases.append(decgen.history(
            rng, "q", pkts=g.out, errata=0,
            ops=[rng.choice(["F R1500", "F " + " ".join(
                rng.choice("CCCCCI") for _ in range(150))])]))
    check_histories(c, cases)


if __name__ == "__main__":
    main(run, "C06", "exploration")
