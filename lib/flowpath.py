"""Reports of the flow decoders for any trace against FlowPath.tla."""
import json
from flowcheck import *

CFG = "INIT TraceInit\nNEXT TraceNext\n"
MODE = {1: 16, 2: 32, 3: 64}
NO = (1 << 64) - 1


def w8(v):
    return list((v & NO).to_bytes(8, "little"))


def memory(secs):
    out = []
    for s in secs.split(";"):
        im, cr3, vmcs, base, b = s.split(",")
        n = len(b) // 2
        out.append({"cr3": w8(NO if cr3 == "-" else int(cr3, 16)),
                    "vmcs": w8(NO if vmcs == "-" else int(vmcs, 16)),
                    "a": w8(int(base, 16)), "z": w8(int(base, 16) + n),
                    "b": list(bytes.fromhex(b))})
    return out


def reports(rec):
    """The reports of a case as FlowPath's."""
    ev = []
    for k, r in enumerate(rec):
        t = r[0]
        failed = k + 1 < len(rec) and rec[k + 1][0] == "x"
        if t == "s":
            if not r[2]:
                ev.append({"k": "s"})
        elif t == "e":
            e, p = r[1], r[1]["p"]
            o = {"k": "e", "t": e["t"], "su": bool(e["su"]),
                 "ips": bool(e["ips"]),
                 "ip": p.get("ip", p.get("to", [0] * 8)),
                 "from": p.get("from", p.get("at", [0] * 8)), "v": 0,
                 "w": p.get("cr3", p.get("base", [0] * 8))}
            if e["t"] == "exec_mode":
                o["v"] = MODE.get(p["mode"], 0)
            elif e["t"] == "tsx":
                o["v"] = p["intx"]
            elif e["t"] == "enabled":
                o["v"] = p["resumed"]
            ev.append(o)
        elif len(r) > 2 and r[2] == "i":
            # the details of one that could not be completed are open
            if not failed:
                ev.append({"k": "i", "ip": w8(r[3]), "n": r[4],
                           "b": list(bytes.fromhex(r[5])), "c": r[6],
                           "m": r[7], "s": bool(r[8])})
        elif len(r) > 2 and r[2] == "b":
            ev.append({"k": "b", "ip": w8(r[3]), "end": w8(r[4]),
                       "n": r[5], "c": r[6], "m": r[7], "s": bool(r[8]),
                       "b": list(bytes.fromhex(r[11]))})
    return ev


def paths(c, R):
    """Run the cases; TLC decides about the reports."""
    exe = harness("flow.c", "asan")
    lines = drive(c, exe, R.cases)
    rec, case, n = [], [], 0
    for k, l in enumerate(lines):
        # a loop of direct branches may go on until the driver's limit
        ev = reports(json.loads(l)["r"][:3000])
        n += sum(1 for x in ev if x["k"] in "ib")
        rec.append(json.dumps({"mem": memory(R.cases[k].split()[4]),
                               "ev": ev}).encode())
        case.append(R.cases[k])
    c.cov["reported_instructions_or_blocks"] = c.cov.get(
        "reported_instructions_or_blocks", 0) + n
    bad = validate(c, "FlowPathTrace", rec, CFG, cases=case, deadlock=True)
    for idx, st in bad:
        c.violation("%s: what is reported is not a path through the image: "
                    "%s" % (c.pid, case[idx][:400]),
                    {"case": case[idx], "driver": "flow.c",
                     "recorded": json.loads(lines[idx]), "spec_state": st})
    R.cases, R.meta, R.must = [], [], []
    return len(bad) + len(c.viol)
