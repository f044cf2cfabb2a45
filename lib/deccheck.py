"""Histories of the packet, event and query decoder against DecTrace."""
import json
import ptgen
from vlib import *
from pktcheck import drive

CFG = "INIT Init\nNEXT Next\n"


def hx(b):
    return bytes(b).hex() or "-"


def case(layer, shift, cfg, buf, ops):
    return "%s %d %s %s %s" % (layer, shift, cfg, hx(buf), ops)


def check_histories(c, cases, module="DecTrace", src="dec.c", cfg=CFG,
                    variant="asan", chunk=4000, timeout=700):
    exe = harness(src, variant)
    all_lines = []
    for a in range(0, len(cases), chunk):
        part = cases[a:a + chunk]
        lines = drive(c, exe, part)
        if len(lines) < len(part):
            return all_lines
        nops = 0
        for l in lines:
            nops += l.count(b'"op":')
        c.cov["calls"] = c.cov.get("calls", 0) + nops
        bad = validate(c, module, lines, cfg, cases=part, deadlock=True,
                       timeout=timeout)
        for idx, st in bad:
            again = run_driver(exe, [], (part[idx] + "\n").encode())
            rec = json.loads(lines[idx])
            m = re.search(r"/\\ k = (\d+)", st)
            k = int(m.group(1)) if m else 0
            op = rec["ops"][k] if k < len(rec["ops"]) else None
            c.violation("%s: call %d of the recorded history is not allowed "
                        "by %s: %s" % (c.pid, k + 1, module,
                                       json.dumps(op)[:400]),
                        {"case": part[idx], "driver": src, "call": k + 1,
                         "op": op,
                         "reproduced": again.strip() == lines[idx],
                         "spec_state": st})
        all_lines += lines
        if c.viol:
            break
    for k in range(0, len(all_lines), max(1, len(all_lines) // 3)):
        c.sample({"case": cases[k][:400], "recorded":
                  all_lines[k].decode()[:800]})
    return all_lines
