#!/usr/bin/env python3
"""mkseed.py ID PROP 'needs' 'breaks' FILE OLD NEW < demo.c
Makes seeded/ID from a textual replacement in /repo (FILE is relative)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 if the property holds for the demonstrated case
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
gcc -g -D_GNU_SOURCE -I_build/libipt/include -I_build/sideband/include \\
  -Ipevent/include -Ilibipt/internal/include -Isideband/internal/include \\
  -Iinclude -Iinclude/posix -Ilibipt/internal/include/posix \\
  -DFEATURE_THREADS -o "$t/demo" "$d/demo.c" \\
  -L_build/lib -Wl,-rpath,"$PWD/_build/lib" @LIBS@ -lpthread || exit 98
cd "$t" && timeout 120 ./demo
'''


def mk(i, prop, needs, breaks, edits, demo, libs="-lipt-sb -lipt", sh=None):
    d = V + "/seeded/" + i
    os.makedirs(d, exist_ok=True)
    diffs = ""
    files = {}
    for f, old, new in edits:
        s = files.get(f) or open("/repo/" + f).read()
        assert s.count(old) == 1, (f, s.count(old))
        files[f] = s.replace(old, new)
    for f, s in files.items():
        p = "/tmp/mkseed.tmp"
        open(p, "w").write(s)
        r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label",
                            "b/" + f, "/repo/" + f, p],
                           stdout=subprocess.PIPE)
        diffs += r.stdout.decode()
    open(d + "/patch.diff", "w").write(diffs)
    open(d + "/demo.c", "w").write(demo) if demo else None
    open(d + "/demo.sh", "w").write(sh or DEMO.replace("@LIBS@", libs))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(d + "/meta.json", "w"), indent=1)
