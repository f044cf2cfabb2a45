"""C10: time is what the timing packets say."""
from vlib import *
import decgen
from ptgen import mutate
from decgen import clock
from deccheck import check_histories
from flowrun import programs, behaviours
from flowtime import flow_times


def run(c):
    rng = c.rng
    cases = []
    for k in range(c.n(3500, 80000)):
        cfg, pk = clock(rng, rng.randrange(5, 40))
        if rng.random() < .2:
            pk = mutate(rng, pk)
        if rng.random() < .4:
            cfg += ",keep"
        if rng.random() < .4:
            cfg += ",skl168"
        cases.append(decgen.history(rng, rng.choice("eq"), pkts=pk, cfg=cfg,
                                    ops=["F R400"]))
    for k in range(c.n(3500, 80000)):
        cases.append(decgen.history(
            rng, rng.choice("eeq"), rng.choice(["legal", "legal", "mut"]),
            ops=["F R400"] if k % 4 else None, timing=.75, events=.1,
            errata=.1))
    word_check(c)
    check_histories(c, cases)
    progs = programs(rng, c.n(40, 200))
    flow_times(c, behaviours(c, progs, len(progs) * c.n(4, 12), 120))


if __name__ == "__main__":
    main(run, "C10", "exploration")
