#!/usr/bin/env python3
"""replay.py FILE: run a replay file's case again and show it call by call."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
from vlib import *
r = json.load(open(sys.argv[1]))
print(r["what"][:600])
d = r["data"]
print(d["case"][:3000])
print("rejected call", d.get("call"))
if "driver" in d:
    try:
        rec = json.loads(run_driver(harness(d["driver"], "asan"), [],
                                    (d["case"] + "\n").encode()))
        k0 = d.get("call") or 1
        for k, o in enumerate(rec.get("ops", [])):
            if abs(k + 1 - k0) < 6:
                print(k + 1, json.dumps(o)[:600])
    except Crash as ex:
        print(ex.what, ex.detail[:3000])
print(str(d.get("spec_state"))[:int(sys.argv[2]) if len(sys.argv) > 2 else 1500])
