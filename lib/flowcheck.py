"""Executions of spec/Processor.tla, replayed into the flow decoders."""
import json
import tempfile
from concurrent.futures import ThreadPoolExecutor
from proggen import *
from pktcheck import drive
from vlib import *

CFG = "INIT Init\nNEXT NextGen\n"


def inside(P, b):
    m = P.map[b["sp"] - 1][b["vm"]] - 1
    if 0 < b["at"] <= len(P.addr):
        a = P.addr[b["at"] - 1]
    else:
        ins = [x for x in b["out"] if x["k"] == "i"]
        if not ins:
            return False
        a = P.addr[ins[-1]["a"] - 1]
        a += len(P.bytes[P.map[ins[-1]["sp"] - 1][ins[-1]["vm"]] - 1][a])
    return any(R["base"] <= a < R["base"] + sum(len(i["b"]) for i in l)
               for R in P.regions for x, l in R["mem"].items()
               if x == m or m < 0)


def behaviours(c, progs, num, depth, chunks=8, timeout=300):
    """Random executions of the programs: [(program, trace, out, end)]."""
    for P in progs:
        P.tla()
    parts = [progs[k::chunks] for k in range(chunks)]
    parts = [x for x in parts if x]

    def one(k):
        part = parts[k]
        f = os.path.join(tmpdir(), "progs-%d-%d.ndjson" % (id(progs) % 99999,
                                                            k))
        with open(f, "w") as fd:
            for P in part:
                fd.write(json.dumps(P.tla()) + "\n")
        r = tlc("ProcessorGen", CFG, workers=1,
                env={"PROGS": f, "PICKSEED": str(c.seed * 1000 + k)},
                simulate=max(1, num // len(parts)), depth=depth,
                seed=c.seed * 1000 + k, heap="2g", timeout=timeout)
        if not r.ok:
            raise CheckError("the processor model failed:\n" + r.out[-3000:])
        res = []
        for l in r.out.split("\n"):
            if l.startswith('"@@'):
                b = json.loads(json.loads(l)[2:])
                P = part[b["p"] - 1]
                # it runs into what is not meant to be executed
                if b["end"] == "nomap" and inside(P, b):
                    continue
                res.append((P, b["tr"], b["out"], b["end"]))
        return r, res
    out = []
    with ThreadPoolExecutor(len(parts)) as ex:
        for r, res in ex.map(one, range(len(parts))):
            c.cov["transitions"] += r.generated
            c.cov["states"] += r.generated
            out += res
    return out


def hexs(v):
    return "-" if v is None else "%x" % v


def secstr(P, secs, images=False):
    o = []
    for sp, vm, base, b in secs:
        if images:
            for im in ([sp] if sp is not None else range(P.nsp)):
                o.append("%d,-,-,%x,%s" % (im, base, bytes(b).hex()))
        else:
            o.append("0,%s,%s,%x,%s" % (
                "-" if sp is None else hexs(P.cr3[sp]),
                "-" if vm is None else hexs(P.vmcs[vm]), base,
                bytes(b).hex()))
    return ";".join(o)


def suffix(exp, k):
    """What a decode that starts at the k-th PSB (from 0) sees."""
    n = -1
    for i, e in enumerate(exp):
        if e[0] == "psb":
            n += 1
            if n == k:
                break
    r = exp[i:]
    if e[1]:
        # that tracing is enabled was said earlier
        j = max(x for x in range(i) if exp[x][0] == "e" and
                exp[x][1]["t"] == "enabled" and exp[x][1]["su"])
        r = [exp[j]] + r
    else:
        # the mode is not known until it is said
        r = list(r)
        for t in ("exec_mode", "iflags"):
            for x in range(len(r)):
                if r[x][0] == "e" and r[x][1]["t"] == t:
                    r[x] = ("e", dict(r[x][1], new=True))
                    break
        # nor is the place where it was disabled
        for x in range(len(r)):
            if r[x][0] == "e" and r[x][1]["t"] == "enabled":
                r[x] = ("e", dict(r[x][1], res=0))
                break
            if r[x][0] == "e" and r[x][1]["t"] == "overflow":
                break
    return r


def flat(P, exp, iflags):
    """The expected records of the instruction flow decoder."""
    out = []
    for e in exp:
        if e[0] == "i":
            out.append(e)
        elif e[0] == "e":
            d = e[1]
            if d["t"] == "exec_mode" and not d["new"]:
                continue
            if d["t"] == "iflags" and not (iflags and d["new"]):
                continue
            out.append(("e", event(P, d)))
    return out


def tick_ok(ev, exp, k, tick, last, blk):
    """A tick, near the branch that was decoded last, at a new time."""
    if not tick:
        return "a tick event that was not requested"
    if ev["su"] or ev["ips"]:
        return "tick %s" % ev
    near = []
    for x in reversed(exp[:k]):
        if x[0] == "i":
            near += [w(x[1]), w(x[1] + x[2])]
            break
    for x in exp[k:]:
        if x[0] == "i":
            near.append(w(x[1]))
            break
        near += [v for v in x[1]["p"].values() if isinstance(v, list)]
    else:
        # where the trace ends
        near = None
    if near and not blk and ev["p"]["ip"] not in near:
        return "tick %s where the processor is at %s" % (ev, near)
    if ev["tsc"] == last:
        return "tick %s without a change of time" % ev
    return None


NO = (1 << 64) - 1


def asid_of(P, sp, vm):
    if not P.flags["os"]:
        return [NO, NO]
    return [P.cr3[sp - 1], P.vmcs[vm] if P.vmcs[vm] is not None else NO]


def compare(P, exp, end, rec, blk, eoc=False, eoj=False, images=False,
            tick=False, must=(), prefix=False):
    """Compare records of one decode with what is expected.  Returns a
    message, or None."""
    k = 0
    last = None
    ticked = set()

    def want():
        return exp[k] if k < len(exp) else ("end", end)

    def insn_ok(w, ip, size, raw, c, m, s):
        return (w[0] == "i" and w[1] == ip and w[2] == size and w[3] == raw
                and w[4] == c and w[5] == m and w[6] == s)
    for r in rec:
        if prefix and k == len(exp):
            return None
        if len(r) > 2 and r[2] in ("i", "b", "-"):
            asid, kind, d = r[:2], r[2], r[3:]
        else:
            kind, d = r[0], r[1:]
        if kind == "e":
            if d[0]["t"] == "tick":
                m = tick_ok(d[0], exp, k, tick, last, blk)
                if m:
                    return m
                last = d[0]["tsc"]
                ticked.add(k - 1)
                continue
            ev = canon(d[0])
            w = want()
            if w != ("e", ev):
                return "event %s where %s is expected" % (ev, want())
            k += 1
        elif kind == "i":
            ip, size, raw, c, m, s, ok, trunc = d
            x = want()
            if not insn_ok(x, ip, size, raw, c, m, s):
                return "instruction %s where %s is expected" % (d, x)
            if not images and asid != asid_of(P, x[7], x[8]):
                return "address space %s at %s, not %s" % (
                    asid, x, asid_of(P, x[7], x[8]))
            if not ok:
                return "the section of instruction %x is wrong" % ip
            k += 1
        elif kind == "b":
            ip, e, n, c, m, s, ok, tsz, raw = d
            seg = exp[k:k + n]
            if prefix and len(seg) < n:
                # it goes on behind what is expected
                if any(x[0] != "i" for x in seg) or seg[0][1] != ip:
                    return "block %s where %s is expected" % (d, seg)
                return None
            if len(seg) < n or any(x[0] != "i" for x in seg):
                return "block %s of %d instructions where %s is expected" \
                    % (d, n, seg)
            if seg[0][1] != ip or seg[-1][1] != e:
                return "block %x..%x where %x..%x is expected" % (
                    ip, e, seg[0][1], seg[-1][1])
            if any(x[5] != m or x[6] != s for x in seg):
                return "block %s: mode or speculation of %s" % (d, seg)
            if c == "indirect":
                # a jump or far transfer that was not looked at in detail
                if seg[-1][4] in ("jump", "far_call", "far_return",
                                  "far_jump"):
                    c = seg[-1][4]
            if c != "unknown" and seg[-1][4] != c:
                return "block %s ends in class %s" % (d, seg[-1][4])
            if tsz and (seg[-1][2] != tsz or seg[-1][3] != raw):
                return "block %s ends in %s" % (d, seg[-1])
            if not ok:
                return "the section of block %s is wrong" % d
            if not images and asid != asid_of(P, seg[0][7], seg[0][8]):
                return "address space %s at %s" % (asid, seg[0])
            if any(x[7:] != seg[0][7:] for x in seg):
                return "block %s crosses address spaces" % d
            if eoc and any(x[4] in ("call", "far_call") for x in seg[:-1]):
                return "block %s does not end at a call" % d
            if eoj and any(x[4] in ("jump", "far_jump") for x in seg[:-1]):
                return "block %s does not end at a jump" % d
            k += n
        elif kind == "-":
            pass
        elif kind in ("swap", "late"):
            pass
        elif kind == "x":
            if k < len(exp):
                return "error %s where %s is expected" % (d, want())
            for x in must:
                # not if an event that has a time follows
                if x not in ticked and x + 1 < len(exp) and \
                        exp[x + 1][0] == "i":
                    return "no tick after %s" % (exp[x],)
            if d[1] not in ([end] if isinstance(end, str) else end):
                return "error %s where %s is expected" % (d, end)
            return None
        elif kind == "s":
            if d[1]:
                return "synchronization failed: %s" % d[1]
        elif kind in ("start", "after", "end"):
            pass
        else:
            return "unexpected record %s" % r
    if prefix == 2 or prefix and k == len(exp):
        return None
    return "nothing where %s is expected" % (want(),)


def runs_of(rec):
    """Split the records of a case into its decodes."""
    out = []
    for r in rec:
        if r[0] == "s":
            out.append([])
        if out:
            out[-1].append(r)
    return out
