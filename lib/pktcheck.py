"""Shared by C01 and C02: run the packet driver and validate its trace."""
import json
from vlib import *

CFG = "INIT Init\nNEXT Next\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\n"


def drive(c, exe, cases, args=(), env=None):
    """Run the driver over the cases, one line of output for each; a case
    that crashes or hangs is a violation."""
    try:
        return run_driver(exe, args, ("\n".join(cases) + "\n").encode(),
                          env=env).splitlines()
    except Crash as ex:
        k = ex.out.count(b"\n")
        bad = cases[k] if k < len(cases) else cases[-1]
        c.violation("%s: %s on case: %s" % (c.pid, "hang" if ex.what in (
            "hang", "timeout") else "crash", bad[:300]),
            {"case": bad, "what": ex.what, "detail": ex.detail,
             "driver": os.path.basename(exe)})
        return ex.out.splitlines()[:k]


def check_cases(c, cases, module="PacketsTrace", cfg=CFG, src="pkt.c",
                env=None, variant="asan", extra_src=(), sb=False):
    exe = harness(src, variant, extra_src=extra_src, sb=sb)
    lines = drive(c, exe, cases)
    if len(lines) < len(cases):
        return []
    bad = validate(c, module, lines, cfg, env=env, cases=cases)
    for idx, st in bad:
        # confirm: the same case again
        again = run_driver(exe, [], (cases[idx] + "\n").encode())
        c.violation("%s: the recorded call is not allowed by %s: %s" %
                    (c.pid, module, cases[idx][:300]),
                    {"case": cases[idx], "driver": src,
                     "recorded": json.loads(lines[idx]),
                     "reproduced": again.strip() == lines[idx],
                     "spec_state": st})
    return lines
