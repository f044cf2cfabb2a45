"""Shared machinery of the checks: building /repo, running TLC, reporting."""
import fcntl
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "_build")
OUT = os.path.join(VERIF, "_out")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)
T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


class CheckError(Exception):
    pass


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          timeout=timeout, **kw)


# ------------------------------------------------------------- build -------
SRC_DIRS = ["libipt", "sideband", "pevent", "ptdump", "pttc", "ptseg", "ptxed",
            "include", "ptunit", "cmake"]


def tree_hash():
    h = hashlib.sha256()
    for top in SRC_DIRS:
        for dp, dn, fn in os.walk(os.path.join(REPO, top)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".c", ".h", ".in", ".txt", ".cmake", ".asm",
                               ".cpp")):
                    p = os.path.join(dp, f)
                    h.update(os.path.relpath(p, REPO).encode() + b"\0")
                    with open(p, "rb") as fd:
                        h.update(fd.read())
    with open(os.path.join(REPO, "CMakeLists.txt"), "rb") as fd:
        h.update(fd.read())
    return h.hexdigest()[:16]


_TH = None


def th():
    global _TH
    if _TH is None:
        _TH = tree_hash()
    return _TH


ASAN = "-fsanitize=address,undefined -fno-sanitize=alignment " \
       "-fno-sanitize-recover=undefined " \
       "-fno-omit-frame-pointer"
VARIANTS = {
    # name: (compiler, cflags, cmake options, targets)
    "asan": ("clang", "-g -O1 " + ASAN, [], ["libipt", "libipt-sb"]),
    "plain": ("gcc", "-g -O2", [], ["libipt", "libipt-sb"]),
    "sched": ("clang", "-g -O1 -fsanitize=address "
              "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores",
              [], ["libipt"]),
    "tools": ("clang", "-g -O1 " + ASAN + " -fno-sanitize=pointer-overflow",
              ["-DPTDUMP=ON", "-DPTTC=ON", "-DPTSEG=ON"], ["all"]),
}


def build(variant):
    """Build /repo's working tree; returns the build directory."""
    cc, cflags, opts, targets = VARIANTS[variant]
    d = os.path.join(BUILD, "%s-%s" % (th(), variant))
    if os.path.exists(os.path.join(d, ".done")):
        return d
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "." + variant), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, ".done")):
            build_locked(variant, d)
    return d


def build_locked(variant, d):
    cc, cflags, opts, targets = VARIANTS[variant]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cmd = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja",
           "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_C_COMPILER=" + cc,
           "-DCMAKE_CXX_COMPILER=" + {"clang": "clang++", "gcc": "g++"}[cc],
           "-DCMAKE_C_FLAGS=-Wno-error " + cflags,
           "-DCMAKE_CXX_FLAGS=-Wno-error " + cflags,
           "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
           "-DBUILD_SHARED_LIBS=OFF", "-DPTUNIT=OFF", "-DPTXED=OFF",
           "-DSIDEBAND=ON", "-DPEVENT=ON", "-DFEATURE_ELF=ON",
           "-DFEATURE_THREADS=ON", "-DMAN=OFF"] + opts
    env = dict(os.environ)
    env.pop("CFLAGS", None)
    r = sh(cmd, env=env)
    if r.returncode:
        raise CheckError("cmake failed: " + r.stderr.decode()[-2000:])
    r = sh(["ninja", "-C", d, "-j", str(NCPU)] + targets, env=env)
    if r.returncode:
        raise CheckError("build failed: " + r.stdout.decode()[-3000:])
    open(os.path.join(d, ".done"), "w").close()


def find_lib(d, name):
    for sub in ("lib", "libipt", "sideband", "."):
        p = os.path.join(d, sub, name)
        if os.path.exists(p):
            return p
    r = sh(["find", d, "-name", name])
    ls = r.stdout.decode().split()
    if not ls:
        raise CheckError("no %s in %s" % (name, d))
    return ls[0]


def harness(src, variant="asan", extra_src=(), extra_flags=(), sb=False,
            link=()):
    """Compile a driver from /verif/harness against the built library."""
    d = build(variant)
    cc, cflags, _, _ = VARIANTS[variant]
    if variant == "sched":
        cflags = "-g -O1 -fsanitize=address"
    h = hashlib.sha256()
    files = [os.path.join(HARN, src)] + [
        os.path.join(HARN, e) if not e.startswith("/") else e
        for e in extra_src]
    for f in files + sorted(
            os.path.join(HARN, x) for x in os.listdir(HARN)
            if x.endswith(".h")):
        with open(f, "rb") as fd:
            h.update(fd.read())
    h.update(repr((extra_flags, sb, link)).encode())
    exe = os.path.join(d, "h_%s_%s" % (os.path.splitext(src)[0],
                                       h.hexdigest()[:10]))
    if os.path.exists(exe):
        return exe
    inc = ["-I" + HARN, "-I" + os.path.join(d, "libipt/include"),
           "-I" + os.path.join(REPO, "libipt/internal/include"),
           "-I" + os.path.join(REPO, "libipt/internal/include/posix"),
           "-I" + os.path.join(REPO, "include"),
           "-I" + os.path.join(REPO, "include/posix")]
    if sb:
        inc += ["-I" + os.path.join(d, "sideband/include"),
                "-I" + os.path.join(REPO, "sideband/internal/include"),
                "-I" + os.path.join(REPO, "pevent/include")]
    libs = []
    if sb:
        libs += [find_lib(d, "libipt-sb.a"), find_lib(d, "libpevent.a")]
    libs.append(find_lib(d, "libipt.a"))
    cmd = [cc] + cflags.split() + ["-std=gnu11", "-D_GNU_SOURCE",
                                   "-DFEATURE_THREADS", "-Dpt_export=",
                                   "-Dpt_sb_export=",
                                   "-Wall", "-Wno-unused-function"] + \
        list(extra_flags) + inc + files + libs + list(link) + \
        ["-lpthread", "-o", exe + ".tmp"]
    r = sh(cmd)
    if r.returncode:
        raise CheckError("harness %s failed to build: %s" %
                         (src, r.stderr.decode()[-3000:]))
    os.rename(exe + ".tmp", exe)
    return exe


# --------------------------------------------------------------- run -------
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:"
            "allocator_may_return_null=1:handle_segv=1",
            "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98"}


class Crash(Exception):
    """The code under test crashed or hung on an input."""

    def __init__(self, what, detail, out=b""):
        Exception.__init__(self, what)
        self.what = what
        self.detail = detail
        self.out = out


def run_driver(exe, args, stdin=None, timeout=400, env=None):
    e = dict(os.environ)
    e.update(ASAN_ENV)
    if env:
        e.update(env)
    try:
        r = subprocess.run([exe] + list(args), input=stdin,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, env=e)
    except subprocess.TimeoutExpired as ex:
        raise Crash("timeout", (ex.stderr or b"").decode(errors="replace"),
                    ex.stdout or b"")
    if r.returncode:
        raise Crash("hang" if r.returncode == -14 else
                    "exit %d" % r.returncode,
                    r.stderr.decode(errors="replace")[-6000:], r.stdout)
    return r.stdout


# --------------------------------------------------------------- TLC -------
def java_overrides():
    """Compile java/*.java, TLC's fast versions of operators of the
    specifications; without a compiler TLC uses the definitions."""
    src = os.path.join(VERIF, "java")
    h = hashlib.sha256()
    fs = sorted(x for x in os.listdir(src) if x.endswith(".java"))
    for f in fs:
        with open(os.path.join(src, f), "rb") as fd:
            h.update(fd.read())
    d = os.path.join(BUILD, "java-" + h.hexdigest()[:12])
    if not os.path.isdir(d):
        os.makedirs(BUILD, exist_ok=True)
        t = tempfile.mkdtemp(dir=BUILD)
        r = sh(["javac", "-cp", JAR, "-d", t] +
               [os.path.join(src, f) for f in fs])
        if r.returncode:
            shutil.rmtree(t, ignore_errors=True)
            log("no java overrides:", r.stderr.decode()[-300:])
            return []
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return [d]


class TlcResult:
    pass


def tlc(module, cfg, env=None, workers=NCPU, timeout=800, simulate=None,
        depth=None, heap="6g", args=(), seed=None, metadir=None,
        deadlock=False, coverage=False, slow=False,
        spec=SPEC):
    """Run TLC on spec/<module>.tla with cfg text; never raises on a
    property violation."""
    wd = tempfile.mkdtemp(prefix="tlc-", dir=tmpdir())
    cfgp = os.path.join(wd, module + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    tp = [] if slow else java_overrides()
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap,
           "-DTLA-Library=" + SPEC,
           "-cp", ":".join(tp + [JAR, CM]), "tlc2.TLC",
           "-config", cfgp, "-workers", str(workers),
           "-metadir", os.path.join(wd, "meta"), "-noGenerateSpecTE"]
    if not deadlock:
        cmd.append("-deadlock")
    if simulate is not None:
        cmd += ["-simulate", "num=%d" % simulate]
    if depth is not None:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed), "-fp", str(seed % 101)]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(args) + [os.path.join(spec, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, env=e,
                           cwd=wd)
        rc, out = r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as ex:
        rc, out = -1, (ex.stdout or b"").decode(errors="replace")
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    res = TlcResult()
    res.rc, res.out, res.wall = rc, out, time.time() - t0
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", out)
    res.generated = int(m.group(1).replace(",", "")) if m else 0
    res.distinct = int(m.group(2).replace(",", "")) if m else 0
    m = re.search(r"The number of states generated: ([\d,]+)", out)
    if m and not res.generated:
        res.generated = int(m.group(1).replace(",", ""))
    res.violation = rc in (10, 11, 12, 13)
    res.ok = rc == 0
    return res


def tlc_last_state(out):
    """The variable assignments of the last printed state."""
    st = re.split(r"\nState \d+:.*\n|\nInitial state.*\n|initial state:?\n",
                  out)
    return st[-1] if len(st) > 1 else out


_TMP = None


def tmpdir():
    global _TMP
    if _TMP is None:
        os.makedirs(OUT, exist_ok=True)
        _TMP = tempfile.mkdtemp(prefix="run-", dir=OUT)
        import atexit
        atexit.register(lambda: shutil.rmtree(_TMP, ignore_errors=True))
    return _TMP


def word_check(c, n=400):
    """TLC's fast operators on words equal their definitions."""
    d = os.path.join(tmpdir(), "wordcheck")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(SPEC, "Word.tla")) as f:
        s = f.read().replace("MODULE Word -", "MODULE WordDef -")
    with open(os.path.join(d, "WordDef.tla"), "w") as f:
        f.write(s)
    shutil.copy(os.path.join(SPEC, "WordCheck.tla"), d)
    r = tlc("WordCheck", "INIT Init\nNEXT Next\nINVARIANT Same\n",
            simulate=n, depth=5, seed=c.seed, spec=d, timeout=200)
    if not r.ok:
        raise CheckError("the fast operators on words are wrong:\n" +
                         r.out[-3000:])


# ------------------------------------------------------------- check -------
class Check:
    def __init__(self, pid, level, technique=None):
        self.pid, self.level = pid, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.rng = random.Random(self.seed * 1000003 + 17)
        self.cov = {"states": 0, "transitions": 0,
                    "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.viol = []
        self.known = []
        self.notes = {}

    def n(self, quick, thorough=None):
        return quick if self.tier == "quick" else (
            thorough if thorough is not None else quick * 10)

    def add_tlc(self, r):
        self.cov["states"] += r.distinct or r.generated
        self.cov["transitions"] += r.generated

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def violation(self, what, data):
        """Record a confirmed violation with everything to replay it."""
        d = os.path.join(OUT, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.viol) + 1))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": what, "data": data}, f,
                      indent=1, default=str)
        self.viol.append((what, p))
        log("violation:", what)

    def known_finding(self, case, recorded):
        """The description of the listed finding this rejection is, if any."""
        if not hasattr(self, "_kf"):
            self._kf = []
            with open(os.path.join(VERIF, "known_findings.txt")) as f:
                for l in f:
                    m = re.match(r"known: property=(\S+) case=(.*) "
                                 r"recorded=(.*) what=(.*)$", l.rstrip("\n"))
                    if m and m.group(1) == self.pid:
                        self._kf.append(m.groups()[1:])
        for cre, rre, what in self._kf:
            if re.search(cre, case) and re.search(rre, recorded):
                return what
        return None

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(self.cov)
        cov.setdefault("rule", "one recorded call or history of the real "
                       "code per case, generated from the seed; distinct "
                       "inputs are counted")
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 2),
              "violations": len(self.viol)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"),
                  "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k), flush=True)
        for what, p in self.viol[:5]:
            print("%s" % what)
            print("VIOLATION property=%s replay=%s" % (self.pid, p),
                  flush=True)
        sys.exit(1 if self.viol else 0)


def main(fn, pid, level):
    c = Check(pid, level)
    try:
        fn(c)
    except Crash as ex:
        c.violation("%s: the code under test crashed or hung: %s" %
                    (pid, ex.what), {"detail": ex.detail})
    except CheckError as ex:
        log("check error:", ex)
        if c.viol:
            c.finish()
        sys.exit(3)
    c.finish()


# ------------------------------------------------- trace validation --------
def write_ndjson(path, lines):
    with open(path, "wb") as f:
        for l in lines:
            f.write(l if isinstance(l, bytes) else l.encode())
            f.write(b"\n")


def validate(c, module, lines, cfg, timeout=700, env=None, explain=None,
             cases=None, known=None, maxviol=3, workers=NCPU, count=None,
             heap="6g", deadlock=False):
    """Check NDJSON lines (one recorded case or trace per line) against the
    trace specification `module`.  The specification has the variable `i`
    (index of the line) in its bad states.  Returns the indices rejected."""
    bad = []
    todo = list(range(len(lines)))
    if known is None:
        # cases of listed findings are judged on their own, so that they hide
        # nothing else
        for k in list(todo):
            what = c.known_finding(cases[k] if cases else "",
                                   lines[k].decode() if isinstance(
                                       lines[k], bytes) else lines[k])
            if what:
                todo.remove(k)
                if what in c.known:
                    continue
                if validate(c, module, [lines[k]], cfg, timeout, env,
                            known=False, count=0,
                            deadlock=deadlock):
                    c.known.append(what)
    while todo and len(bad) < maxviol:
        p = os.path.join(tmpdir(), "trace.ndjson")
        write_ndjson(p, [lines[k] for k in todo])
        e = {"TRACE": p}
        e.update(env or {})
        r = tlc(module, cfg, env=e, timeout=timeout, workers=workers,
                heap=heap, deadlock=deadlock)
        if not bad:
            c.add_tlc(r)
        if r.ok:
            break
        if not r.violation and not (
                r.rc in (75, 76, 77) and
                re.search(r"/\\ i = (\d+)", tlc_last_state(r.out))):
            raise CheckError("TLC failed rc=%d on %s:\n%s" %
                             (r.rc, module, r.out[-3000:]))
        st = tlc_last_state(r.out)
        m = re.search(r"/\\ i = (\d+)", st) or re.search(r"\bi = (\d+)", st)
        if not m:
            raise CheckError("cannot find the rejected line:\n" +
                             r.out[-3000:])
        k = int(m.group(1)) - 1
        idx = todo[k]
        bad.append((idx, st[:6000]))
        todo = todo[:k] + todo[k + 1:]
    if known is None:
        c.cov["evaluations"] = c.cov.get("evaluations", 0) + len(lines)
        c.cov["distinct_nontrivial"] = c.cov.get("distinct_nontrivial", 0) \
            + len(set(cases if cases else lines))
    c.cov["traces_validated_against_impl"] += (
        count if count is not None else len(lines)) - len(bad)
    return bad
