"""C25: compiled trace tests mean what they say."""
import concurrent.futures
import shutil
from c24 import Bad, execute, tool
from vlib import *

CFG = "INIT TraceInit\nNEXT TraceNext\n"
W = lambda v: list((v & (2**64 - 1)).to_bytes(8, "little"))


# arguments: what they are, and how they are written

def num(rng, v):
    if v >= 2**64:
        return {"k": "big"}, str(v) if rng.random() < .5 else hex(v)
    k = rng.random()
    if v < 0:
        return {"k": "x"}, str(v)
    t = "0x%x" % v if k < .6 else "%d" % v
    if k > .95:
        t = "0%o" % v
    return {"k": "n", "w": W(v)}, t


def word(s):
    return {"k": "s", "s": s, "b": list(s.encode())}, s


def lab(s):
    return {"k": "lab", "s": s}, "%" + s


def cst(s, sub=-1):
    return {"k": "c", "s": s, "sub": sub}, \
        "c%d" % s + (".%d" % sub if sub >= 0 else "")


def tnt(s):
    return {"k": "tnt", "s": list(s)}, s


def icnt(rng, v):
    a, t = num(rng, v)
    return ({"k": "icnt", "w": a["w"]} if a["k"] == "n" else {"k": "x"}), \
        "icnt:" + rng.choice(["", " "]) + t


def value(rng, bits):
    return rng.choice([
        lambda: rng.getrandbits(bits), lambda: rng.getrandbits(bits),
        lambda: rng.getrandbits(min(8, bits)), lambda: 0,
        lambda: 2**bits - 1, lambda: 1 << rng.randrange(bits),
        lambda: rng.getrandbits(rng.randrange(1, bits + 1))])()


def branches(rng, most):
    n = rng.choice([1, most, rng.randrange(1, most + 1)])
    s = ""
    for _ in range(n):
        s += rng.choice("tn")
        if rng.random() < .1:
            s += rng.choice([" ", ".", ". "])
    return s


class Source:
    """An annotated assembly file, as its lines and as text."""

    def __init__(self, rng, root):
        self.rng = rng
        self.root = root
        self.lines = []
        self.text = []
        self.own = []           # labels: all, and those of the sections
        self.forward = {}
        self.pts = []
        self.sbs = []           # sideband files: sample type, final
        self.cur = None
        self.secs = []
        self.macros = []
        self.glued = set()      # lines that belong to the one before

    def macro(self):
        rng = self.rng
        name = rng.choice(["twice", "m", "_do"]) + str(len(self.macros))
        self.add("other", "%%macro %s 0" % name)
        n = rng.randrange(1, 4)
        for _ in range(n):
            self.add("other", rng.choice(["\t", "  "]) + "nop")
        self.add("other", "%endmacro")
        self.macros.append((name, n))

    def repeat(self):
        rng = self.rng
        n = rng.randrange(1, 5)
        self.add("other", "%%rep %d" % n)
        self.add("code", "\tnop", label="", n=n)
        self.add("other", "%endrep")
        self.glued |= {len(self.lines) - 2, len(self.lines) - 1}

    def add(self, k, text, c=False, t=(), **kw):
        self.lines.append(dict(k=k, c=c, t=list(t), **kw))
        self.text.append(text)

    def remark(self):
        """What may follow: nothing, or a comment."""
        rng = self.rng
        if rng.random() < .8:
            return False, [], ""
        s = rng.choice(["", " text", "a ; b", " org", " psb()", "[org 5]"])
        return True, [{"k": "t", "s": s, "pad": "", "mask": -1}] if s else \
            [], ";" + s + rng.choice(["", " ", "\t", " # x", "# ; @ x"])

    # the program

    def names(self):
        rng = self.rng
        pool = ["a", "b", "c", "d", "e", "add", "bad", "dec", "face", "l0",
                "l1", "l_2", "start", "exit", "nop_here", "x" * 40, "_u",
                "beef", "f00", "cafe1", "0"]
        pool = [x for x in pool if not x[0].isdigit()]
        pool.remove("add")
        pool.remove("dec")
        # names that begin and end like others
        for _ in range(rng.choice([0, 1, 1, 2])):
            x = rng.choice([rng.choice(pool), "handler_for_the_first_case_",
                            "_" * rng.choice([7, 15, 16, 31, 63, 100]) +
                            "case"])
            pool += [x + "_" + y for y in rng.sample("abcdef", 2)] + \
                ["b" + x]
        pool = sorted(set(pool))
        rng.shuffle(pool)
        return pool

    def instr(self):
        rng = self.rng
        k = rng.randrange(11)
        if self.macros and rng.random() < .3:
            return rng.choice(self.macros)
        if k < 3:
            return "nop", 1
        if k == 3:
            return "mov rax, 0x%x" % (rng.getrandbits(64) | 1 << 63), 10
        if k == 4:
            n = rng.choice([1, 2, 3, 8, 9, 10, 17, 30])
            b = [rng.choice([0, 0, rng.randrange(256)]) for _ in range(n)]
            return "db " + ", ".join("0x%02x" % x for x in b), n
        if k == 5:
            n = rng.randrange(1, 40)
            return "times %d nop" % n, n
        if k == 6:
            return "dq 0", 8
        if k == 7:
            return "add [rax], al", 2
        if k == 8:
            return "dw 0x%x" % rng.getrandbits(8), 2
        if k == 9:
            return "db 0", 1
        return rng.choice([("ret", 1), ("hlt", 1), ("push rbp", 1),
                           ("mov rax, [rdi]", 3), ("xor eax, eax", 2)])

    def code(self, label=""):
        rng = self.rng
        t, n = self.instr()
        c, tt, s = self.remark()
        pre = label + ":" + rng.choice([" ", "\t", "  "]) if label else \
            rng.choice(["", "\t", "  "])
        self.add("code", pre + t + (" " + s if s else ""), c, tt,
                 label=label, n=n)

    def program(self, names, last):
        """A stretch of code, which ends with an instruction."""
        rng = self.rng
        for _ in range(rng.randrange(0, 5)):
            if rng.random() < .6 and names:
                x = names.pop()
                self.own.append(x)
                if rng.random() < .5:
                    c, tt, s = self.remark()
                    self.add("label", x + ":" + (" " + s if s else ""), c,
                             tt, label=x)
                    if rng.random() < .4 and names:
                        y = names.pop()
                        self.own.append(y)
                        self.add("label", y + ":", label=y)
                    if rng.random() < .4:
                        self.blank()
                    self.code(names.pop() if names and rng.random() < .3
                              else "")
                    if self.lines[-1]["label"]:
                        self.own.append(self.lines[-1]["label"])
                else:
                    self.code(x)
            else:
                self.code()
            if self.macros and rng.random() < .2:
                self.repeat()
            if rng.random() < .06:
                n = rng.choice([2, 4, 8, 16])
                self.add("align", "align %d" % n, n=n)
        if last:
            self.add("code", "\thlt", label="", n=1)

    def blank(self):
        c, tt, s = self.remark()
        self.add("other", s, c, tt)

    # directives

    def directive(self, k, d, args, seps=", "):
        rng = self.rng
        label = ""
        if rng.random() < (.6 if k == "sb" else .3):
            label = rng.choice(["p", "q", "pt_"]) + str(len(self.pts))
            self.pts.append(label)
        self.raw(k, label, d, args, seps)

    def raw(self, k, label, d, args, seps):
        rng = self.rng
        p = ""
        for j, (_, t) in enumerate(args):
            if j:
                s = seps[j - 1] if isinstance(seps, list) and \
                    j <= len(seps) else ","
                p += s + (rng.choice([" ", " ", ""]))
            p += t
        text = "; @%s %s%s(%s)" % (
            k, label + ":" + rng.choice(["", " "]) if label else
            rng.choice(["", "", " "]), d, p)
        text = rng.choice(["", "", "", "\t"]) + text + \
            rng.choice(["", "", "", " ", " # x", " psb()", ";"])
        self.add(k, text, label=label, d=d, a=[a for a, _ in args])

    def ref(self):
        pool = self.all or ["org"]
        return lab(self.rng.choice(pool + ["org"] * (self.rng.random() < .1)))

    def packet(self):
        """A packet directive: name, arguments, separators."""
        rng = self.rng
        n = lambda b: num(rng, value(rng, b))
        opt = lambda w, p=.4: [word(w)] if rng.random() < p else []
        d = rng.choice(PT)
        if d in ("psb", "psbend", "pad", "ovf", "stop"):
            return d, [], []
        if d in ("tnt", "tnt64"):
            return d, [tnt(branches(rng, 6 if d == "tnt" else 47))], []
        if d in ("tip", "tip.pge", "tip.pgd", "fup"):
            ipc = rng.choice([0, 1, 2, 3, 4, 6])
            a = self.ref() if rng.random() < .6 else n(
                [16, 16, 32, 48, 48, 64, 64][ipc])
            return d, [num(rng, ipc), a], [":"]
        if d == "mode.exec":
            return d, [word(rng.choice(["16bit", "32bit", "64bit"]))] + \
                opt("if"), []
        if d == "mode.tsx":
            return d, [word(rng.choice(["begin", "abort", "commit"]))], []
        if d == "pip":
            return d, [num(rng, value(rng, 47) << 5)] + opt("nr"), []
        if d == "tsc":
            return d, [n(56)], []
        if d in ("cbr", "mtc"):
            return d, [n(8)], []
        if d == "tma":
            return d, [n(16), n(9)], []
        if d in ("cyc", "mnt"):
            return d, [n(64)], []
        if d == "vmcs":
            return d, [n(52)], []
        if d == "exstop":
            return d, opt("ip"), []
        if d == "mwait":
            return d, [n(32), n(32)], []
        if d == "pwre":
            return d, [cst(rng.randrange(16), rng.choice(
                [-1, rng.randrange(16)]))] + opt("hw"), []
        if d == "pwrx":
            return d, [word(rng.choice(["int", "st", "hw"])),
                       cst(rng.randrange(16)), cst(rng.randrange(16))], \
                [":"]
        if d == "ptw":
            k = rng.randrange(2)
            return d, [num(rng, k), n(64 if k else 32)] + opt("ip"), [":"]
        if d == "cfe":
            t = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 11, 31])
            v = t in (1, 5, 9, 12) or rng.random() < .2
            return d, [num(rng, t)] + ([n(8)] if v else []) + opt("ip"), \
                [":" if v else ","]
        if d == "evd":
            return d, [num(rng, rng.randrange(32)), n(64)], [":"]
        if d == "trig":
            o = opt("ip") + opt("mult") + (
                [icnt(rng, value(rng, 16))] if rng.random() < .5 else [])
            rng.shuffle(o)
            return d, [n(8)] + o, []
        return d, [n(int(d[4:]))], []

    def samples(self, st):
        rng = self.rng
        r = []
        for bit, ws in ((1, (32, 32)), (2, (64,)), (6, (64,)), (7, (32,)),
                        (9, (64,)), (16, (64,))):
            if st >> bit & 1:
                r += [num(rng, value(rng, w)) for w in ws]
        return r

    def sideband(self):
        rng = self.rng
        k = rng.random()
        if not self.cur or k < .2:
            a = [word(rng.choice(["raw", "pevent"]))]
            if rng.random() < .5:
                a.append(word(rng.choice(["cpu0", "x", "kernel"])))
            d = rng.choice(["primary", "secondary"])
            if self.sbs and rng.random() < .5:
                d, *a = rng.choice(self.sbs)["key"]
                a = [word(x) for x in a]
            key = (d,) + tuple(x[1] for x in a)
            # the label is that of the file before
            self.raw("sb", "", d, a, [])
            for f in self.sbs:
                if f["key"] == key:
                    self.cur = f
                    return
            self.cur = {"key": key, "st": 0, "final": False}
            self.sbs.append(self.cur)
            return
        f = self.cur
        if k < .35:
            b = rng.choice([8, 16, 32, 64])
            return self.directive("sb", "raw-%d" % b,
                                  [num(rng, value(rng, b))])
        if k < .5 and not f["final"]:
            names = {"tid": 1, "time": 2, "id": 6, "cpu": 7, "stream": 9,
                     "identifier": 16}
            st, a = 0, []
            for _ in range(rng.randrange(1, 5)):
                x = rng.choice(list(names))
                st |= 1 << names[x]
                if rng.random() < .3:
                    a.append(num(rng, 1 << names[x]))
                else:
                    a.append(word(x))
            f["st"] = st
            return self.directive("sb", "pevent-sample_type", a)
        ws = rng.choice(list(SB))
        a = []
        for x in SB[ws]:
            if x == "s":
                a.append(word(rng.choice(["/bin/foo", "a", "lib.so.6",
                                          "1234567", "12345678", "/x-y_z",
                                          self.root + ".bin"])))
            elif x == "sec":
                if not self.secs:
                    return
                a.append(word(rng.choice(self.secs)))
            else:
                a.append(num(rng, value(rng, x)))
        f["final"] = True
        self.directive("sb", ws, a + self.samples(f["st"]))

    # faults

    def fault(self):
        """A directive that is not one: returns whether it is there."""
        rng = self.rng
        k = rng.random() if not self.cur or rng.random() < .3 else 1
        d, a, seps = self.packet()
        if k < .1:
            text = rng.choice(["; @pt %s", "; @pt %s(", "; @pt %s)",
                               "; @pt x: %s"]) % d
            if "(" in text and ")" in text:
                text = "; @pt " + d
            return self.add("broken", text)
        if k < .2:
            return self.raw("pt", "", rng.choice(
                ["foo", "psbx", "tip.foo", "", "raw-24", "mode", "tip.",
                 ".expx", "primary", "pevent-lost", "tnt8"]), a, seps)
        if k < .3:
            x = rng.choice(self.pts + self.own + ["org"])
            if x == "org" or x in self.own or self.pts:
                return self.raw("pt", x, d, a, seps)
        if k < .4:
            return self.raw("pt", "", rng.choice(
                ["tip", "fup", "tip.pge", "tip.pgd"]), rng.choice([
                    [num(rng, rng.choice([5, 7, 8, 1 << 32])), self.ref()],
                    [num(rng, 3), lab("nowhere")],
                    [num(rng, 3), lab(rng.choice(self.pts or ["none"]))],
                    [num(rng, 3), ({"k": "x"}, rng.choice(
                        ["l", "0x", "5x", "-", "%"]))],
                    [num(rng, 3), num(rng, 1 << 64)],
                    [num(rng, 3)]]), [":"])
        if k < .55:
            big = {"cbr": 8, "mtc": 8, "raw-8": 8, "raw-16": 16,
                   "raw-32": 32, "raw-64": 64, "tsc": 64, "cyc": 64,
                   "mnt": 64, "vmcs": 64, "pip": 64}
            x = rng.choice(list(big) + ["tma", "tma", "mwait", "trig"])
            if x in big:
                v = [num(rng, rng.choice([1 << big[x], (1 << big[x]) +
                                          rng.getrandbits(8)]))]
                if big[x] < 64 and rng.random() < .2:
                    v = [num(rng, -rng.randrange(1, 300))]
            elif x == "tma":
                v = [num(rng, rng.choice([65536, 1 << 40, -1, 5, 7])),
                     num(rng, rng.choice([512, 65536, -1, 3, 1023]))]
                if v[0][0]["k"] == v[1][0]["k"] == "n":
                    v[rng.randrange(2)] = num(rng, -rng.randrange(1, 70000))
            elif x == "mwait":
                v = [num(rng, rng.choice([1 << 32, 5])),
                     num(rng, rng.choice([1 << 32, 1 << 40]))]
            else:
                v = rng.choice([[num(rng, 256)],
                                [num(rng, 1), icnt(rng, 65536)],
                                [num(rng, 1), ({"k": "x"}, "icnt")],
                                [num(rng, 1), ({"k": "x"}, "icnt:")]])
            return self.raw("pt", "", x, v, seps if x == d else [])
        if k < .65:
            x = rng.choice(["tnt", "tnt64"])
            n = rng.choice([48, 49, 64, 65, 100, 256, 257, 260, 300])
            s = rng.choice(["", " ", ".", "tx", "0", "t,n", "tn" * 30,
                            "".join(rng.choice("tn") for _ in range(n)),
                            "n" * (256 + rng.randrange(
                                1, 7 if x == "tnt" else 48)) + "t",
                            "t" * (7 if x == "tnt" else 48)])
            return self.raw("pt", "", x, [tnt(s)], [])
        if k < .75:
            x = rng.choice(["pwre", "pwrx", "ptw", "cfe", "evd"])
            c, n = cst(1), num(rng, 1)
            junk = ({"k": "x"}, rng.choice(["x", "c", "cc1", "1c"]))
            v = rng.choice({
                "pwre": [[], [cst(16)], [cst(1, 16)], [junk],
                         [c, word("nr")], [c, word("hw"), word("hw")],
                         [c, c], [({"k": "x"}, "c1x")]],
                "pwrx": [[word("int")], [word("int"), c], [word("foo"), c, c],
                         [word("st"), cst(1, 2), c],
                         [word("hw"), c, cst(16)], [word("hw"), c, c, c],
                         [word("int"), c, c, word("hw")]],
                "ptw": [[n], [num(rng, 2), n], [num(rng, 4), n],
                        [n, num(rng, 1 << 64)], [n, n, word("nr")],
                        [n, n, word("ip"), word("ip")], [n, junk]],
                "cfe": [[num(rng, 1)], [num(rng, 9), word("ip")],
                        [num(rng, 256)], [num(rng, 2), word("if")],
                        [num(rng, 2), word("ip"), word("ip")], [junk]],
                "evd": [[n], [num(rng, 256), n], [n, num(rng, 1 << 64)],
                        [n, n, word("ip")], [n, junk]]}[x])
            s = ["," if x == "pwre" else ":"]
            if x == "cfe" and len(v) > 1:
                s = [","]
            return self.raw("pt", "", x, v, s)
        if k < .92:     # too many, too few, something else
            if a and rng.random() < .3 and d != "exstop":
                opt = a[-1][1] in ("ip", "nr", "hw", "if", "mult") or \
                    a[-1][1].startswith("icnt") or d == "cfe"
                if not opt and not (d == "pwre" and len(a) == 1):
                    return self.raw("pt", "", d, a[:-1], seps)
                if len(a) == 1:
                    return self.raw("pt", "", d, [], seps)
            x = rng.choice([word("foo"), num(rng, 5), word("nr"),
                            word("x")])
            if d == "cfe" and x[0]["k"] == "n":     # not behind a comma
                x = word("if")
            if d == "pip" or x[1] == "nr" and d == "pip":
                x = word(rng.choice(["foo", "nrx", "ip"]))
            return self.raw("pt", "", d, a + [x], seps)
        # the sideband
        f = self.cur
        if not f:
            return self.raw("sb", "", "raw-8", [num(rng, 1)], [])
        st = self.samples(f["st"])
        n = num(rng, 1)
        return self.raw("sb", "", *rng.choice([
            ("foo", [], []), ("raw-8", [num(rng, 256)], []),
            ("raw-8", [], []), ("raw-16", [n, n], []),
            ("primary", [], []), ("psb", [], []),
            ("pevent-lost", [n] + ([n] if not st else []) + [] if not st
             else [n], []) if not st else ("pevent-lost", [n, n] + st[:-1],
                                           []),
            ("pevent-lost", [n, n] + st + [n], []),
            ("pevent-comm", [n, num(rng, 1 << 32), word("x")] + st, []),
            ("pevent-sample_type", [word("foo")], []),
            ("pevent-sample_type", [word("tid")] if f["final"] else
             [word("bar")], []),
            ("pevent-sample_type", [word("cpu"), word("time")]
             if f["final"] else [word("cpus")], []),
            ("pevent-sample_type", [word("tid"), word("foo")], []),
            ("pevent-mmap-section", [word("nowhere"), n, n] + st, []),
            ("pevent-switch", st, []),
            ("raw-8", [({"k": "x"}, "1x")], [])]))

    # expectation

    def expectation(self, bad):
        rng = self.rng
        t, s = [], rng.choice(["", "nop ", "\t"]) + ";"
        if s.startswith("nop"):
            s = ";"
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            if rng.random() < .5 and (self.all or self.pts):
                if rng.random() < .35 and self.pts or not self.all:
                    x = rng.choice(self.pts)
                    pad, mask = rng.choice(["", "0"]), -1
                elif rng.random() < .1:
                    x, pad, mask = "eos", rng.choice(["", "0"]), -1
                else:
                    pool = list(self.all) + ["org"]
                    for q in self.secs:
                        pool += ["section_%s_%s" % (q, w) for w in
                                 ("start", "vstart", "length")]
                    x = rng.choice(pool)
                    pad = rng.choice(["", "0", "0", "?"])
                    mask = rng.choice([-1, -1, 0, 1, 2, 3, 4, 6, 7, 8])
                t.append({"k": "lab", "s": x, "pad": pad, "mask": mask})
                s += "%" + pad + x + (
                    "." + rng.choice(["%d", "0x%x"]) % mask
                    if mask >= 0 else "")
                y = rng.choice([" ", "  ", ",", ": ", "] ", "(x) ", "; ",
                                " @pt psb() "])
            else:
                y = rng.choice(["psb", "tip   3: ", "[", "x y ", "@sb foo(",
                                "; ", " 0x", "\t", "fup(", "'"])
                if y == "@sb foo(":
                    y = "foo("
            t.append({"k": "t", "s": y, "pad": "", "mask": -1})
            s += y
        if bad:
            x, m = rng.choice([("nowhere", -1), ("org", 9), ("org", 100)])
            t.append({"k": "lab", "s": x, "pad": "", "mask": m})
            s += "%" + x + (".%d" % m if m >= 0 else "")
        # what is last has no blanks at its end
        while t and t[-1]["k"] == "t":
            z = t[-1]["s"].rstrip(" \t")
            s = s.rstrip(" \t")
            if z:
                t[-1] = dict(t[-1], s=z)
                break
            t.pop()
        s += rng.choice(["", "", " ", "  \t", " # remark %nowhere", "#",
                         " # ; @ y"])
        if "@pt" in s and "(" not in s.split("@pt", 1)[1]:
            s = ";"
            t = []
        self.add("other", s, True, t)


PT = ["psb", "psbend", "pad", "ovf", "stop", "tnt", "tnt", "tnt64", "tip",
      "tip", "tip.pge", "tip.pgd", "fup", "mode.exec", "mode.tsx", "pip",
      "tsc", "cbr", "tma", "mtc", "cyc", "vmcs", "mnt", "exstop", "mwait",
      "pwre", "pwrx", "ptw", "cfe", "evd", "trig", "raw-8", "raw-16",
      "raw-32", "raw-64"]
SB = {"pevent-mmap": [32, 32, 64, 64, 64, "s"], "pevent-lost": [64, 64],
      "pevent-comm": [32, 32, "s"], "pevent-comm.exec": [32, 32, "s"],
      "pevent-exit": [32, 32, 32, 32, 64],
      "pevent-fork": [32, 32, 32, 32, 64], "pevent-aux": [64, 64, 64],
      "pevent-itrace-start": [32, 32], "pevent-lost-samples": [64],
      "pevent-switch.in": [], "pevent-switch.out": [],
      "pevent-switch-cpu-wide.in": [32, 32],
      "pevent-switch-cpu-wide.out": [32, 32],
      "pevent-mmap-section": ["sec", 32, 32]}


def source(rng):
    root = rng.choice(["t", "test-1", "a.b", "x_y"])
    s = Source(rng, root)
    names = s.names()
    org = rng.choice([0, 0x1000, 0x100000, 0x7f0000001000, 0x42,
                      rng.getrandbits(31) << 4])
    bad = rng.random()
    if rng.random() < .2:
        s.blank()
    if bad > .01:
        s.add("org", "%s 0x%x%s" % (rng.choice(["org", "org", "\torg"]), org,
                                    rng.choice(["", " ; base"])), v=W(org))
        if s.text[-1].endswith("base"):
            s.lines[-1].update(c=True, t=[{"k": "t", "s": " base", "pad": "",
                                           "mask": -1}])
    s.add("other", "bits 64")
    # the labels are known once the program is
    parts = rng.choice([1, 1, 2, 3])
    plan = Source(rng, root)
    if rng.random() < .25:
        for _ in range(rng.randrange(1, 3)):
            s.macro()
        plan.macros = s.macros
    if rng.random() < .3 and org < 1 << 40:
        start = org
        for j in range(rng.randrange(1, 4)):
            name = rng.choice([".s%d", "text%d", ".data%d"]) % j
            if j or rng.random() < .5:
                start = start + rng.randrange(0x200, 0x1000) & ~0xf
            v = rng.choice([0x1000, 0x400000, 0x10000, 0x2000]) * \
                rng.randrange(1, 9)
            f = rng.choice(["0x%x", "0x%x", "%d"])
            lead = rng.choice(["[section %s start=%s vstart=%s]",
                               "section %s start=%s vstart=%s"])
            plan.add("section", lead % (name, f % start, f % v), name=name,
                     start=W(start), vstart=W(v))
            plan.secs.append(name)
            plan.program(names, True)
            start += 0x400
    else:
        for j in range(parts):
            plan.program(names, j == parts - 1 and rng.random() < .8)
    # an own label needs code behind it
    while plan.lines and plan.lines[-1]["k"] in (
            "label", "other", "align") and plan.text[-1] != "%endrep":
        x = plan.lines.pop()
        plan.text.pop()
        if x["k"] == "label":
            plan.own.remove(x["label"])
    s.all = [x for x in plan.own]
    s.own = list(s.all)
    s.secs = [x for x in plan.secs if x.replace("_", "a").isalnum()]
    every = plan.secs
    rest = list(zip(plan.lines, plan.text, (
        k + 1 in plan.glued for k in range(len(plan.lines)))))

    def take():
        more = True
        while more:
            x, t, more = rest.pop(0)
            s.lines.append(x)
            s.text.append(t)

    faulty = .75 < bad < .97
    n = rng.randrange(1, 16)
    at = rng.randrange(n + 1)
    sb = rng.choice([0, 0, .3, .3, .9])     # how much of it is sideband
    if rng.random() < .02:      # more than the buffer of one packet
        m = rng.randrange(59, 65)
        n = min(n, 6)
        if m == 64 or rng.random() < .7:
            for _ in range(m):
                s.raw("pt", "", "psb", [], [])
    for j in range(n + 1):
        while rest and rng.random() < len(rest) / (n + 2 - j) / 2:
            take()
        if faulty and j == at:
            s.fault()
        if j == n:
            break
        if rng.random() < sb:
            hold, s.secs = s.secs, every
            s.sideband()
            s.secs = hold
        else:
            s.directive("pt", *s.packet())
        if rng.random() < .1:
            s.blank()
    cut = rng.random() < .5
    while rest and cut:
        take()
    tools = ["ptdump", "ptxed", "x", ""]
    rng.shuffle(tools)
    ends = .97 < bad
    for j in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
        s.add("exp", "; @pt %s.exp(%s)" % (rng.choice(["", " "]), tools[j]),
              name=tools[j])
        for _ in range(rng.randrange(8)):
            s.expectation(ends and rng.random() < .3)
            while rest and rng.random() < .3:
                take()
            if rng.random() < .1:
                s.add("other", "")
    while rest:
        take()
    return {"root": root, "src": s.lines, "text": s.text,
            "argv": request(rng),
            "eol": rng.choice(["\n", "\n", "\n", "\r\n"]),
            "dir": rng.random() < .3}


def single(rng, d, a, seps):
    """A source with one directive, and another one behind it."""
    s = Source(rng, "t")
    s.add("org", "org 0x1000", v=W(0x1000))
    s.add("other", "bits 64")
    s.add("code", "l0: nop", label="l0", n=1)
    s.raw("pt", "", d, a, seps)
    s.raw("pt", "p1", "pad", [], [])
    s.add("exp", "; @pt .exp(x)", name="x")
    s.add("other", "; %p1", True, [
        {"k": "t", "s": " ", "pad": "", "mask": -1},
        {"k": "lab", "s": "p1", "pad": "", "mask": -1}])
    return {"root": "t", "src": s.lines, "text": s.text,
            "argv": [{"k": "file"}], "eol": "\n", "dir": False}


def singles(rng):
    """Every directive: as it is, with more, with less, with other values."""
    r = []
    for d in sorted(set(PT)):
        for _ in range(3):
            s = Source(rng, "t")
            s.all = ["l0"]
            a, seps = [], []
            while True:
                x, a, seps = s.packet()
                if x == d:
                    break
            r.append(single(rng, d, a, seps))
            for x in (word("foo"), word("ipx"), word("nrx"), word("ifx"),
                      word("hwx"), word("ip"), word("nr"), word("hw"),
                      word("if"), word("mult"), num(rng, 3), cst(2)):
                if d in ("tnt", "tnt64") or rng.random() < .5 or \
                        d == "cfe" and x[0]["k"] == "n":
                    continue
                r.append(single(rng, d, a + [x], seps))
            for j in range(len(a)):
                if a[j][0]["k"] in ("n", "icnt", "c", "tnt"):
                    bad = rng.choice([-1, -5, -300, 256, 65536, 1 << 32,
                                      1 << 64, "x"])
                    if bad == 256 and a[j][0]["k"] == "tnt":
                        bad = "x"
                    y = ({"k": "x"}, "x") if bad == "x" else num(rng, bad)
                    # what may be truncated, or is 64 bits wide
                    if d in ("tip", "fup", "tip.pge", "tip.pgd") and j or \
                            a[j][0]["k"] in ("tnt", "icnt") or \
                            isinstance(bad, int) and (
                                bad < 0 and WIDE.get((d, j)) or
                                0 < bad < 1 << 64 and (d, j) in WIDE):
                        continue
                    r.append(single(rng, d, a[:j] + [y] + a[j + 1:], seps))
    return r


WIDE = {("tsc", 0): 1, ("cyc", 0): 1, ("mnt", 0): 1, ("vmcs", 0): 1,
        ("pip", 0): 1, ("raw-64", 0): 1, ("ptw", 1): 1, ("evd", 1): 1}


def request(rng):
    """A command line: what it is, and how it is written."""
    r = []

    def cpu(c):
        r.append({"k": "cpu", "c": c, "t": ["--cpu", "%d/%d" % tuple(c[:2]) + (
            "/%d" % c[2] if c[2] or rng.random() < .2 else "")]})

    if rng.random() < .4:
        cpu(rng.choice([[6, 78, 0], [6, 78, 3], [6, 158, 10], [6, 61, 0],
                        [6, 85, 4], [6, 150, 1], [6, 106, 15]]))
    r.append({"k": "file"})
    if rng.random() < .08:
        n = len(r)
        x = rng.choice([
            {"k": "info", "t": [rng.choice(["--help", "-h", "--version"])]},
            {"k": "none", "t": ["--cpu", "none"]},
            {"k": "nocpu", "t": ["--cpu", rng.choice(
                ["", "6", "x", "6/", "6/x", "/1", "6.1", "nonex"])]},
            {"k": "x", "t": [rng.choice(["--foo", "-x", "-", "--pt"])]},
            {"k": "file"}, "drop", "end"])
        if x == "drop":
            r.pop()
        elif x == "end":
            r.append({"k": "nocpu", "t": ["--cpu"]})
        else:
            r.insert(rng.randrange(n + 1), x)
    elif rng.random() < .2 and len(r) > 1:
        r.append(r.pop(0))
    return r


def run_pttc(exe, tmp, k, case):
    """One run, in a directory of its own."""
    d = os.path.join(tmp, "p%d" % k)
    os.makedirs(os.path.join(d, "in"))
    root = case["root"]
    name = ("in/" if case["dir"] else "") + root + ".ptt"
    with open(os.path.join(d, name), "w", newline="") as f:
        f.write(case["eol"].join(case["text"]) + case["eol"])
    args = [t for a in case["argv"] for t in a.get("t", [name])]
    try:
        rc, out, err = execute([exe] + args, d)
        r = {"root": root, "bin": list((root + ".bin").encode()),
             "argv": [{q: v for q, v in a.items() if q != "t"}
                      for a in case["argv"]], "src": case["src"], "rc": rc,
             "printed": out.decode("latin1").split(), "pt": [], "exp": [],
             "sb": [],
             "about": [int(x) for x in re.findall(
                 re.escape(name) + r":(\d+):", err.decode("latin1"))]}
        for x in sorted(os.listdir(d)):
            p = os.path.join(d, x)
            if os.path.isdir(p) or x == root + ".ptt":
                continue
            with open(p, "rb") as f:
                b = f.read()
            if x == root + ".pt":
                r["pt"] = list(b)
            elif x.endswith(".sb"):
                r["sb"].append({"n": x, "b": list(b)})
            elif x.endswith(".exp"):
                t = b.decode("latin1").split("\n")
                if t.pop():
                    t.append("incomplete")
                r["exp"].append({"n": x, "l": t})
            elif x not in (root + ".lst", root + ".bin"):
                r["exp"].append({"n": x, "l": []})
        return r, None
    except Bad as ex:
        return None, str(ex)
    finally:
        shutil.rmtree(d)


def show(case):
    return "\n".join(case["text"])


def run(c):
    tmp = tmpdir()
    exe = tool("pttc")
    cases = [source(c.rng) for _ in range(c.n(2500, 40000))]
    for _ in range(c.n(1, 10)):
        cases += singles(c.rng)
    c.cov["single directives"] = len(cases)
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        got = list(ex.map(lambda kc: run_pttc(exe, tmp, *kc),
                          enumerate(cases)))
    lines, kept = [], []
    for case, (r, what) in zip(cases, got):
        if what:
            c.violation("C25: pttc %s" % what.split(":")[0],
                        {"case": case, "detail": what})
            if len(c.viol) > 3:
                return
        else:
            lines.append(json.dumps(r))
            kept.append(case)
    c.cov["compiled"] = sum('"rc": 0' in x for x in lines)
    c.cov["refused"] = len(lines) - c.cov["compiled"]
    for at in range(0, len(lines), 3000):
        part, cs = lines[at:at + 3000], kept[at:at + 3000]
        bad = validate(c, "PttcTrace", part, CFG, deadlock=True,
                       cases=[json.dumps(x) for x in cs])
        for idx, st in bad:
            again, _ = run_pttc(exe, tmp, 0, cs[idx])
            rec = json.loads(part[idx])
            rec.pop("src")
            c.violation("C25: Pttc does not compile to this",
                        {"source": show(cs[idx]), "recorded": rec,
                         "reproduced": json.dumps(again) == part[idx],
                         "case": cs[idx], "spec_state": st})
        if bad:
            return


if __name__ == "__main__":
    main(run, "C25", "exploration")
