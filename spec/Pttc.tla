-------------------------------- MODULE Pttc ---------------------------------
(***************************************************************************)
(* The compiler for annotated assembly files: what a source means.         *)
(*                                                                         *)
(* A source is a sequence of lines.  The assembler passes over it first    *)
(* and gives addresses to labels; the compiler then takes the lines one by *)
(* one, up to the first fault:                                             *)
(*   k = "org"      v                      the base address                *)
(*   k = "section"  name, start, vstart                                    *)
(*   k = "code"     label, own, n          n bytes, behind a label or not  *)
(*   k = "label"    label                  a label on its own              *)
(*   k = "align"    n                                                      *)
(*   k = "pt", "sb" label, d, a            directive d with arguments a    *)
(*   k = "broken"                          a directive without parentheses *)
(*   k = "exp"      name                   what follows is expected output *)
(* Every line may have a comment: c tells whether it has, t is its text,   *)
(* pieces and labels.                                                      *)
(*                                                                         *)
(* Arguments are numbers (k = "n"; k = "big" does not fit into 64 bits),   *)
(* words (k = "s", with their bytes), label references (k = "lab"),        *)
(* C-states (k = "c", sub is -1 if there is none), lists of branches       *)
(* (k = "tnt"), instruction counts (k = "icnt"), and something that is     *)
(* none of this (k = "x").                                                 *)
(***************************************************************************)
EXTENDS Packets, Text, FiniteSets

PE == INSTANCE Pevent

Find(ls, name) == {k \in DOMAIN ls : ls[k].n = name}
Known(ls, name) == Find(ls, name) # {}
Addr(ls, name) == ls[CHOOSE k \in Find(ls, name) : TRUE].a

(***************************************************************************)
(* The assembler.  off is the offset into the section, sec the number of   *)
(* the section, 0 for the part before the first one.                       *)
(***************************************************************************)
Asm0 == [org |-> << >>, base |-> W0, off |-> 0, labels |-> << >>,
         secs |-> << >>]

Sec(r, x, what) == "section_" \o x.name \o "_" \o what

Grow(a, n) ==
  [a EXCEPT !.off = @ + n,
            !.secs = IF @ = << >> THEN @
                     ELSE [@ EXCEPT ![Len(@)].len = a.off + n]]
Define(a, label) ==
  IF label = "" THEN a
  ELSE [a EXCEPT !.labels = Append(@, [n |-> label,
                                       a |-> WAdd(a.base, WInt(a.off))])]

Assemble(a, r) ==
  CASE r.k = "org" -> [a EXCEPT !.org = <<r.v>>, !.base = r.v]
    [] r.k = "section" ->
         [a EXCEPT !.base = r.vstart, !.off = 0,
                   !.secs = Append(@, [name |-> r.name, start |-> r.start,
                                       vstart |-> r.vstart, len |-> 0])]
    [] r.k = "code" -> Grow(Define(a, r.label), r.n)
    [] r.k = "label" -> Define(a, r.label)
    [] r.k = "align" -> Grow(a, (r.n - (a.off % r.n)) % r.n)
    [] OTHER -> a

\* All that a label may refer to.
Labels(a) ==
  LET S[k \in 0..Len(a.secs)] ==
        IF k = 0 THEN a.labels
        ELSE LET x == a.secs[k]
                 p == "section_" \o x.name \o "_"
             IN S[k - 1] \o << [n |-> p \o "start", a |-> x.start],
                               [n |-> p \o "vstart", a |-> x.vstart],
                               [n |-> p \o "length", a |-> WInt(x.len)] >>
  IN S[Len(a.secs)] \o << [n |-> "org", a |-> a.org[1]] >>

(***************************************************************************)
(* Packets: the bytes of a directive, nothing if it is not well-formed.    *)
(***************************************************************************)
No == << >>
N(a, j, bits) == j <= Len(a) /\ a[j].k = "n" /\ WFits(a[j].w, bits)
I(a, j) == WToInt(a[j].w)
Word(a, j, s) == j <= Len(a) /\ a[j].k = "s" /\ a[j].s = s
Flag(b) == IF b THEN 1 ELSE 0

\* Nothing but the word s may follow the first n arguments.
Opt(a, n, s) == Len(a) = n \/ (Len(a) = n + 1 /\ Word(a, n + 1, s))

RECURSIVE Branches(_, _)
Branches(s, w) == IF s = << >> THEN w
                  ELSE Branches(Tail(s), WOr(WShl(w, 1),
                         IF Head(s) = "t" THEN WInt(1) ELSE W0))

Tnt(t, a) ==
  IF Len(a) # 1 \/ a[1].k # "tnt" THEN No
  ELSE LET s == SelectSeq(a[1].s, LAMBDA x : x \notin {" ", "."})
       IN IF \E k \in DOMAIN s : s[k] \notin {"t", "n"} THEN No
          ELSE IF Len(s) > 47 THEN No
          ELSE << [t |-> t, n |-> Len(s), bits |-> Branches(s, W0)] >>

Ip(t, a, ls) ==
  IF Len(a) # 2 \/ ~N(a, 1, 8) THEN No
  ELSE IF I(a, 1) \notin {0, 1, 2, 3, 4, 6} THEN No
  ELSE IF a[2].k = "n" THEN << [t |-> t, ipc |-> I(a, 1), ip |-> a[2].w] >>
  ELSE IF a[2].k = "lab" /\ Known(ls, a[2].s)
       THEN << [t |-> t, ipc |-> I(a, 1), ip |-> Addr(ls, a[2].s)] >>
  ELSE No

Exec(a) ==
  IF a = << >> \/ ~Opt(a, 1, "if") THEN No
  ELSE IF a[1].k # "s" \/ a[1].s \notin {"16bit", "32bit", "64bit"} THEN No
  ELSE << [t |-> "mode_exec", csl |-> Flag(a[1].s = "64bit"),
           csd |-> Flag(a[1].s = "32bit"), iflag |-> Flag(Len(a) = 2)] >>

Tsx(a) ==
  IF Len(a) # 1 \/ a[1].k # "s" THEN No
  ELSE IF a[1].s \notin {"begin", "abort", "commit"} THEN No
  ELSE << [t |-> "mode_tsx", intx |-> Flag(a[1].s = "begin"),
           abrt |-> Flag(a[1].s = "abort")] >>

CState(a, j, sub) ==
  /\ j <= Len(a) /\ a[j].k = "c"
  /\ a[j].s \in 0..15 /\ a[j].sub \in -1..15
  /\ sub \/ a[j].sub = -1
\* C0 is 15, Cn is n - 1.
CEnc(n) == (n + 15) % 16

Pwre(a) ==
  IF ~CState(a, 1, TRUE) \/ ~Opt(a, 1, "hw") THEN No
  ELSE << [t |-> "pwre", hw |-> Flag(Len(a) = 2), state |-> CEnc(a[1].s),
           sub_state |-> IF a[1].sub < 0 THEN 15 ELSE CEnc(a[1].sub)] >>

Pwrx(a) ==
  IF Len(a) # 3 \/ ~CState(a, 2, FALSE) \/ ~CState(a, 3, FALSE) THEN No
  ELSE IF a[1].k # "s" \/ a[1].s \notin {"int", "st", "hw"} THEN No
  ELSE << [t |-> "pwrx", last |-> CEnc(a[2].s), deepest |-> CEnc(a[3].s),
           int |-> Flag(a[1].s = "int"), store |-> Flag(a[1].s = "st"),
           auto |-> Flag(a[1].s = "hw")] >>

Ptw(a) ==
  IF ~N(a, 1, 8) \/ ~N(a, 2, 64) \/ ~Opt(a, 2, "ip") THEN No
  ELSE << [t |-> "ptw", plc |-> I(a, 1), payload |-> a[2].w,
           ip |-> Flag(Len(a) = 3)] >>

\* Interrupts, SIPI, exits for interrupts, user interrupts have a vector.
Vectored == {1, 5, 9, 12}
Cfe(a) ==
  LET v == N(a, 2, 8)
      n == IF v THEN 2 ELSE 1
  IN IF ~N(a, 1, 8) \/ ~Opt(a, n, "ip") THEN No
     ELSE IF ~v /\ I(a, 1) \in Vectored THEN No
     ELSE << [t |-> "cfe", type |-> I(a, 1), ip |-> Flag(Len(a) > n),
              vector |-> IF v THEN I(a, 2) ELSE 0] >>

Evd(a) ==
  IF Len(a) # 2 \/ ~N(a, 1, 8) \/ ~N(a, 2, 64) THEN No
  ELSE << [t |-> "evd", type |-> I(a, 1), payload |-> a[2].w] >>

Trig(a) ==
  LET rest == 2..Len(a)
      cs == {j \in rest : a[j].k = "icnt"}
      Fine(j) == Word(a, j, "ip") \/ Word(a, j, "mult") \/
               (a[j].k = "icnt" /\ WFits(a[j].w, 16))
  IN IF ~N(a, 1, 8) \/ \E j \in rest : ~Fine(j) THEN No
     ELSE << [t |-> "trig", trbv |-> I(a, 1),
              ip |-> Flag(\E j \in rest : Word(a, j, "ip")),
              mult |-> Flag(\E j \in rest : Word(a, j, "mult")),
              icntv |-> Flag(cs # {}),
              icnt |-> IF cs = {} THEN 0
                       ELSE I(a, CHOOSE j \in cs : TRUE)] >>

Packet(d, a, ls) ==
  LET One(bits) == Len(a) = 1 /\ N(a, 1, bits)
  IN CASE d \in {"psb", "psbend", "pad", "ovf", "stop"} ->
            IF a = << >> THEN << [t |-> d] >> ELSE No
       [] d = "tnt" -> Tnt("tnt_8", a)
       [] d = "tnt64" -> Tnt("tnt_64", a)
       [] d = "tip.pge" -> Ip("tip_pge", a, ls)
       [] d = "tip.pgd" -> Ip("tip_pgd", a, ls)
       [] d \in {"tip", "fup"} -> Ip(d, a, ls)
       [] d = "mode.exec" -> Exec(a)
       [] d = "mode.tsx" -> Tsx(a)
       [] d = "pip" -> IF N(a, 1, 64) /\ Opt(a, 1, "nr")
                       THEN << [t |-> "pip", cr3 |-> a[1].w,
                                nr |-> Flag(Len(a) = 2)] >> ELSE No
       [] d = "tsc" -> IF One(64) THEN << [t |-> d, tsc |-> a[1].w] >> ELSE No
       [] d = "cbr" -> IF One(8) THEN << [t |-> d, ratio |-> I(a, 1)] >>
                       ELSE No
       [] d = "tma" -> IF Len(a) = 2 /\ N(a, 1, 16) /\ N(a, 2, 16)
                       THEN << [t |-> d, ctc |-> I(a, 1), fc |-> I(a, 2)] >>
                       ELSE No
       [] d = "mtc" -> IF One(8) THEN << [t |-> d, ctc |-> I(a, 1)] >> ELSE No
       [] d = "cyc" -> IF One(64) THEN << [t |-> d, value |-> a[1].w] >>
                       ELSE No
       [] d = "vmcs" -> IF One(64) THEN << [t |-> d, base |-> a[1].w] >>
                        ELSE No
       [] d = "mnt" -> IF One(64) THEN << [t |-> d, payload |-> a[1].w] >>
                       ELSE No
       [] d = "exstop" -> IF Opt(a, 0, "ip")
                          THEN << [t |-> d, ip |-> Len(a)] >> ELSE No
       [] d = "mwait" -> IF Len(a) = 2 /\ N(a, 1, 32) /\ N(a, 2, 32)
                         THEN << [t |-> d, hints |-> a[1].w,
                                  ext |-> a[2].w] >> ELSE No
       [] d = "pwre" -> Pwre(a)
       [] d = "pwrx" -> Pwrx(a)
       [] d = "ptw" -> Ptw(a)
       [] d = "cfe" -> Cfe(a)
       [] d = "evd" -> Evd(a)
       [] d = "trig" -> Trig(a)
       [] OTHER -> No

Raw(d) == CASE d = "raw-8" -> 1 [] d = "raw-16" -> 2 [] d = "raw-32" -> 4
            [] d = "raw-64" -> 8 [] OTHER -> 0
RawBytes(d, a) ==
  IF Len(a) = 1 /\ N(a, 1, 8 * Raw(d)) THEN << WLow(a[1].w, Raw(d)) >> ELSE No

PtBytes(d, a, ls) ==
  IF Raw(d) > 0 THEN RawBytes(d, a)
  ELSE LET p == Packet(d, a, ls)
           x == Enc(p[1])
       IN IF p = No THEN No ELSE IF x.err # "" THEN No ELSE << x.b >>

(***************************************************************************)
(* Sideband records.  Time samples are given as time stamp counts, which   *)
(* the configuration that is used does not change.                         *)
(***************************************************************************)
Kind(d) ==
  CASE d = "pevent-mmap" -> PE!MMAP
    [] d = "pevent-lost" -> PE!LOST
    [] d \in {"pevent-comm", "pevent-comm.exec"} -> PE!COMM
    [] d = "pevent-exit" -> PE!EXIT
    [] d = "pevent-fork" -> PE!FORK
    [] d = "pevent-aux" -> PE!AUX
    [] d = "pevent-itrace-start" -> PE!ITRACE
    [] d = "pevent-lost-samples" -> PE!LOST_SAMPLES
    [] d \in {"pevent-switch.in", "pevent-switch.out"} -> PE!SWITCH
    [] d \in {"pevent-switch-cpu-wide.in", "pevent-switch-cpu-wide.out"} ->
         PE!SWITCH_CPU
    [] OTHER -> 0
\* Bit 13: an exec, and a switch out.
Misc(d) == IF d \in {"pevent-comm.exec", "pevent-switch.out",
                     "pevent-switch-cpu-wide.out"} THEN 8192 ELSE 0

SampleBit(s) == CASE s = "tid" -> 1 [] s = "time" -> 2 [] s = "id" -> 6
                  [] s = "cpu" -> 7 [] s = "stream" -> 9
                  [] s = "identifier" -> 16 [] OTHER -> -1
\* The sample arguments come in this order, a tid as two.
ArgOrder == << "tid", "time", "id", "cpu", "sid", "ident" >>
ArgBits == << 1, 2, 6, 7, 9, 16 >>
ArgBytes == << 4, 8, 8, 4, 8, 8 >>

RECURSIVE SampleTypeOf(_, _)
SampleTypeOf(a, w) ==
  IF a = << >> THEN << w >>
  ELSE LET x == Head(a)
       IN IF x.k = "n" THEN SampleTypeOf(Tail(a), WOr(w, x.w))
          ELSE IF x.k = "s" /\ SampleBit(x.s) >= 0
          THEN SampleTypeOf(Tail(a), WOr(w, WPow2(SampleBit(x.s))))
          ELSE No

\* The samples of type st among the arguments: their names and values.
RECURSIVE SampleArgs(_, _, _)
SampleArgs(a, st, j) ==
  IF j > Len(ArgOrder)
  THEN IF a = << >> THEN << << >> >> ELSE No
  ELSE IF WBit(st, ArgBits[j]) = 0 THEN SampleArgs(a, st, j + 1)
  ELSE LET n == IF j = 1 THEN 2 ELSE 1
           rest == SampleArgs(SubSeq(a, n + 1, Len(a)), st, j + 1)
       IN IF Len(a) < n THEN No
          ELSE IF \E q \in 1..n : ~N(a, q, 8 * ArgBytes[j]) THEN No
          ELSE IF rest = No THEN No
          ELSE << << [n |-> ArgOrder[j], v |-> [q \in 1..n |-> a[q].w]] >>
                  \o rest[1] >>

RECURSIVE Flat(_, _)
\* The values in the order of the record.
Flat(xs, order) ==
  IF order = << >> THEN << >>
  ELSE LET s == SelectSeq(xs, LAMBDA x : x.n = Head(order).n)
       IN (IF s = << >> THEN << >> ELSE s[1].v) \o Flat(xs, Tail(order))
HasNames(xs) == SelectSeq(PE!Names(PE!Samples),
                          LAMBDA n : \E k \in DOMAIN xs : xs[k].n = n)

Record(type, misc, body, str, xs) ==
  LET ev == [type |-> WInt(type), misc |-> misc, body |-> body, str |-> str,
             samples |-> Flat(xs, PE!Samples), has |-> HasNames(xs),
             tsc |-> W0]
      b == PE!Encode(ev)
      free == PE!Unused(ev)
  IN [k \in DOMAIN b |-> IF k \in free THEN -1 ELSE b[k]]

Event(d, a, st) ==
  LET t == Kind(d)
      ws == PE!Layout(t)
      n == Len(ws) + (IF PE!HasString(t) THEN 1 ELSE 0)
      xs == SampleArgs(SubSeq(a, n + 1, Len(a)), st, 1)
  IN IF Len(a) < n \/ \E j \in 1..Len(ws) : ~N(a, j, 8 * ws[j]) THEN No
     ELSE IF PE!HasString(t) /\ a[n].k # "s" THEN No
     ELSE IF xs = No THEN No
     ELSE << Record(t, Misc(d), [j \in 1..Len(ws) |-> a[j].w],
                    IF PE!HasString(t) THEN a[n].b ELSE << >>, xs[1]) >>

\* The mapping of a section of the file whose name is bin.
SectionEvent(a, st, asm, bin) ==
  LET secs == {k \in DOMAIN asm.secs : asm.secs[k].name = a[1].s}
      s == asm.secs[CHOOSE k \in secs : TRUE]
      xs == SampleArgs(SubSeq(a, 4, Len(a)), st, 1)
  IN IF Len(a) < 3 THEN No
     ELSE IF a[1].k # "s" \/ ~N(a, 2, 32) \/ ~N(a, 3, 32) THEN No
     ELSE IF secs = {} \/ xs = No THEN No
     ELSE << Record(PE!MMAP, 0,
                    << a[2].w, a[3].w, s.vstart, WInt(s.len),
                       WSub(s.start, asm.org[1]) >>, bin, xs[1]) >>

(***************************************************************************)
(* The command line: what it asks for, a compilation for a processor, some *)
(* other output (what = "info"), or nothing that makes sense ("bad").      *)
(* Arguments are k = "info" (help or version), "cpu" (c is the processor), *)
(* "nocpu" (not one, or none given), "none", "file", and "x" (unknown).    *)
(***************************************************************************)
RECURSIVE Request(_, _, _)
Request(argv, cpu, file) ==
  LET Is(what) == [what |-> what, cpu |-> cpu]
      rest == Tail(argv)
  IN IF argv = << >> THEN Is(IF file THEN "run" ELSE "bad")
     ELSE CASE argv[1].k = "info" -> Is("info")
            [] argv[1].k = "cpu" -> Request(rest, argv[1].c, file)
            [] argv[1].k = "none" -> Request(rest, << >>, file)
            [] argv[1].k = "file" -> IF file THEN Is("bad")
                                     ELSE Request(rest, cpu, TRUE)
            [] OTHER -> Is("bad")

(***************************************************************************)
(* The compiler.  fault is the line at which it gave up, 0 if it did not.  *)
(***************************************************************************)
Comp0 == [pt |-> << >>, labels |-> << >>, sb |-> << >>, cur |-> 0,
          exp |-> << >>, fault |-> -1]

Fails(c, at) == [c EXCEPT !.fault = at]

SbName(root, a, prio) ==
  root \o (IF Len(a) > 1 THEN "-" \o a[2].s ELSE "") \o "-" \o a[1].s \o "-"
  \o prio

Switch(c, r, root, at) ==
  LET name == SbName(root, r.a, r.d)
      ks == {k \in DOMAIN c.sb : c.sb[k].name = name}
  IN IF r.a = << >> THEN Fails(c, at)
     ELSE IF ks # {} THEN [c EXCEPT !.cur = CHOOSE k \in ks : TRUE]
     ELSE [c EXCEPT !.cur = Len(c.sb) + 1,
                    !.sb = Append(@, [name |-> name, pev |-> FALSE, st |-> W0,
                                      final |-> FALSE, b |-> << >>])]

Sideband(c, r, asm, root, bin, at) ==
  LET cur == c.sb[c.cur]
      Put(x) == IF x = No THEN Fails(c, at)
                ELSE [c EXCEPT !.sb[c.cur].b = @ \o x[1]]
      PutEvent(x) == IF x = No THEN Fails(c, at)
                     ELSE [c EXCEPT !.sb[c.cur] =
                             [@ EXCEPT !.b = @ \o x[1], !.pev = TRUE,
                                       !.final = TRUE]]
      st == SampleTypeOf(r.a, W0)
  IN IF r.d \in {"primary", "secondary"} THEN Switch(c, r, root, at)
     ELSE IF c.cur = 0 THEN Fails(c, at)
     ELSE IF Raw(r.d) > 0 THEN Put(RawBytes(r.d, r.a))
     ELSE IF r.d = "pevent-sample_type"
     THEN IF st = No \/ cur.final THEN Fails(c, at)
          ELSE [c EXCEPT !.sb[c.cur] = [@ EXCEPT !.pev = TRUE, !.st = st[1]]]
     ELSE IF r.d = "pevent-mmap-section"
     THEN PutEvent(SectionEvent(r.a, cur.st, asm, bin))
     ELSE IF Kind(r.d) = 0 THEN Fails(c, at)
     ELSE PutEvent(Event(r.d, r.a, cur.st))

\* Directive r with its label, which tells where its bytes are.
Labelled(c, r, asm, at) ==
  IF r.label = "" THEN c
  ELSE IF Known(Labels(asm), r.label) \/ Known(c.labels, r.label)
  THEN Fails(c, at)
  ELSE IF r.k = "sb" /\ c.cur = 0 THEN Fails(c, at)
  ELSE [c EXCEPT !.labels = Append(@, [n |-> r.label,
          a |-> WInt(IF r.k = "pt" THEN Len(c.pt)
                     ELSE Len(c.sb[c.cur].b))])]

Directive(c0, r, asm, root, bin, at) ==
  LET c == Labelled(c0, r, asm, at)
      x == PtBytes(r.d, r.a, Labels(asm))
  IN IF c.fault >= 0 THEN c
     ELSE IF r.k = "sb" THEN Sideband(c, r, asm, root, bin, at)
     ELSE IF x = No THEN Fails(c, at)
     ELSE [c EXCEPT !.pt = @ \o x[1]]

(***************************************************************************)
(* Expected output: the text of comments, with labels replaced.            *)
(***************************************************************************)
RECURSIVE Marks(_)
Marks(n) == IF n <= 0 THEN "" ELSE "??" \o Marks(n - 1)

\* One piece of text: << >> if it refers to nothing.
Piece(p, c, asm) ==
  LET ls == Labels(asm)
      all == ls \o c.labels
      n == IF p.mask < 0 THEN 8 ELSE p.mask
      w == WTrunc(Addr(all, p.s), n)
  IN IF p.k = "t" THEN << p.s >>
     ELSE IF ~Known(all, p.s) \/ n > 8 THEN No
     ELSE IF p.pad = "?"
     THEN << Marks(8 - n) \o (IF n = 0 THEN "" ELSE HexLow(w, 2 * n)) >>
     ELSE IF p.pad = "0" THEN << Hex16(w) >>
     ELSE << Hex(w) >>

RECURSIVE Line(_, _, _)
Line(t, c, asm) ==
  IF t = << >> THEN << "" >>
  ELSE LET x == Piece(Head(t), c, asm)
           y == Line(Tail(t), c, asm)
       IN IF x = No \/ y = No THEN No ELSE << x[1] \o y[1] >>

\* The byte behind the last packet.
Ends(c) == [c EXCEPT !.labels = Append(@, [n |-> "eos",
                                           a |-> WInt(Len(c.pt))])]
Expect(c, name) == [c EXCEPT !.exp = Append(@, [n |-> name, l |-> << >>])]

ExpName(root, tool, cpu) ==
  root \o (IF tool = "" THEN "" ELSE "-" \o tool) \o
  (IF cpu = << >> THEN ""
   ELSE "-cpu_" \o Dec(cpu[1]) \o "_" \o Dec(cpu[2]) \o
        (IF cpu[3] = 0 THEN "" ELSE "_" \o Dec(cpu[3]))) \o ".exp"

\* Line number at of the source.
Compile(c, r, asm, root, bin, cpu, at) ==
  LET x == Line(r.t, c, asm)
  IN IF r.k = "exp"
     THEN Expect(IF c.exp = << >> THEN Ends(c) ELSE c,
                 ExpName(root, r.name, cpu))
     ELSE IF c.exp = << >>
     THEN CASE r.k \in {"pt", "sb"} -> Directive(c, r, asm, root, bin, at)
            [] r.k = "broken" -> Fails(c, at)
            [] OTHER -> c
     ELSE IF ~r.c THEN c
     ELSE IF x = No THEN Fails(c, at)
     ELSE [c EXCEPT !.exp[Len(c.exp)].l = Append(@, x[1])]

SbFile(x) ==
  x.name \o (IF x.pev
             THEN ",sample-type=0x" \o Hex(x.st) \o
                  ",time-zero=0x0,time-shift=0x0,time-mult=0x1"
             ELSE "") \o ".sb"
=============================================================================
