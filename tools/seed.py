#!/usr/bin/env python3
"""Confirm planted changes in a scratch copy and run the check against them.
usage: seed.py [--no-test] [--check-only] ID..."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
R = W + "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def prep():
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(R):
        sh(["cp", "-a", "/repo", R])
        shutil.rmtree(R + "/_build", ignore_errors=True)
    head = sh(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.decode().strip()
    sh(["git", "-C", R, "checkout", "-q", "--", "."])
    sh(["git", "-C", R, "fetch", "-q", "/repo"])
    sh(["git", "-C", R, "checkout", "-q", head])
    for f in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + f).read().replace("/repo", R).replace("/opt/vp/build.sh", W + "/build.sh")
        open(W + "/" + f, "w").write(s)


def tests():
    r = sh(["bash", W + "/test.sh", W + "/out.json"])
    try:
        out = json.load(open(W + "/out.json"))
    except Exception:
        return "no test output: " + r.stdout.decode()[-500:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    lst = base if isinstance(base, list) else base.get("passed") or base.get("stable") or base.get("tests")
    missing = set(lst) - set(out["passed"])
    return sorted(missing)[:10]


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    fl = [x for x in sys.argv[1:] if x.startswith("-")]
    prep()
    for i in a or sorted(os.listdir(V + "/seeded")):
        d = V + "/seeded/" + i
        meta = json.load(open(d + "/meta.json"))
        sh(["git", "-C", R, "checkout", "-q", "--", "."])
        res = [i, meta["property"]]
        if "--check-only" not in fl:
            sh(["bash", W + "/build.sh"])
            r = sh(["bash", d + "/demo.sh"], cwd=R, timeout=300)
            res.append("demo-clean=%d" % r.returncode)
            if r.returncode:
                print(r.stdout.decode()[-1500:])
        r = sh(["git", "-C", R, "apply", d + "/patch.diff"])
        if r.returncode:
            print(i, "patch does not apply", r.stdout.decode())
            continue
        if "--check-only" not in fl:
            r = sh(["bash", W + "/build.sh"])
            if r.returncode:
                print(i, "does not build", r.stdout.decode()[-1500:])
                continue
            r = sh(["bash", d + "/demo.sh"], cwd=R, timeout=300)
            res.append("demo-patched=%d" % r.returncode)
            if "--no-test" not in fl:
                res.append("tests-missing=%s" % tests())
        if "--no-check" not in fl:
            env = dict(os.environ, VERIF_REPO=R, VERIF_SEED="1", VERIF_TIER="quick")
            r = sh([V + "/bin/check", meta["property"]], env=env, cwd=V)
            o = r.stdout.decode()
            res.append("check=%d%s" % (r.returncode, " VIOLATION" if "VIOLATION property=" + meta["property"] in o else ""))
            if "-v" in fl or r.returncode not in (0, 1):
                print(o[-1500:])
        print(*res, flush=True)
        sh(["git", "-C", R, "checkout", "-q", "--", "."])


main()
