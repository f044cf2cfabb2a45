------------------------------ MODULE Processor ------------------------------
(***************************************************************************)
(* A processor that executes a program and traces itself: which trace it   *)
(* sends, and which instructions and events its user has to see.  This is  *)
(* the ground truth for the instruction flow and the block decoder; it     *)
(* knows nothing about how they work.                                      *)
(*                                                                         *)
(* A program P is a memory image:                                          *)
(*   P.n      the number of instruction addresses, 1..n in address order   *)
(*   P.map    per paging base and vmcs (plus one), the memory in force     *)
(*   P.code   per memory, per address, the instruction there:              *)
(*              c  class ("none": nothing is mapped there)                 *)
(*              n  the address of the next instruction (0: outside)        *)
(*              t  the target of a direct branch (0: outside)              *)
(*              z  whether a call goes to the next instruction             *)
(*   P.mode   per address, the execution mode of the code there            *)
(*   P.entry  addresses to which control may be transferred                *)
(*   P.exits  addresses outside of the program, after those of it          *)
(*   P.flags  what the processor is told to trace                          *)
(* Unconditional direct branches only go forward, so that every address is *)
(* reached at most once before the trace says something.                   *)
(*                                                                         *)
(* The state:                                                              *)
(*   on   tracing is enabled and the processor executes at address at      *)
(*   sp   the paging base, vm the vmcs (0: none)                           *)
(*   tx   a transaction is running                                         *)
(*   fl   the interrupt flag                                               *)
(*   mk   the trace said the mode and the flag since packets were lost     *)
(*   an   instructions since the trace gave an address (-1: not counted)   *)
(*   cr   a change of the paging base is the last thing the trace told; it *)
(*        does not tell whether that or a later instruction left the code  *)
(*   rs   return addresses of calls, for return compression                *)
(*   res  where execution was disabled (0: not known)                      *)
(*   db   bits and target addresses not sent, yet (deferred TIPs)          *)
(*   tr   the trace: packets with addresses instead of IPs                 *)
(*   out  what the user sees: instructions and events                      *)
(*   ep   how many elements of out the trace so far says something about   *)
(* Packets of a branch also say which element of out it is (o).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS P,         \* the programs
          Pick(_)    \* the elements of a set to consider

VARIABLES p, s, n

RetStackMax == 64

Code(sp, vm) == P[p].code[P[p].map[sp][vm + 1]]
InsnAt(q, a) == Code(q.sp, q.vm)[a]
Mapped(q, a) == a # 0 /\ InsnAt(q, a).c # "none"
Spaces == DOMAIN P[p].map
Vms(sp) == {x - 1 : x \in {y \in DOMAIN P[p].map[sp] : P[p].map[sp][y] # 0}}

(***************************************************************************)
(* What is sent and what is seen.                                          *)
(***************************************************************************)
\* Send what was deferred, then the packets k.
Flush(q) == [q EXCEPT !.tr = @ \o (IF q.db.tnt = << >> THEN << >>
                                    ELSE << [t |-> "tnt", b |-> q.db.tnt,
                                             o |-> Len(q.out)] >>)
                               \o q.db.tip,
                      !.db = [tnt |-> << >>, tip |-> << >>]]
Send(q, k) == LET f == Flush(q) IN [f EXCEPT !.tr = @ \o k]
\* The outcome of a conditional branch, the target of an indirect one.
SendTnt(q, b) ==
  LET d == [q EXCEPT !.db.tnt = Append(@, b)]
  IN IF ~P[p].flags.defer \/ Len(d.db.tnt) >= 6 THEN Flush(d) ELSE d
SendTip(q, a) ==
  LET d == [q EXCEPT !.db.tip = Append(@, [t |-> "tip", a |-> a,
                                           o |-> Len(q.out)])]
  IN IF ~P[p].flags.defer \/ d.db.tnt = << >> THEN Flush(d) ELSE d

\* The user sees the instruction at a.
See(q) ==
  [q EXCEPT !.out = Append(@, [k |-> "i", a |-> q.at, sp |-> q.sp, vm |-> q.vm,
                               tx |-> IF q.tx THEN 1 ELSE 0]),
            !.an = IF @ < 0 THEN @ ELSE @ + 1]
\* The trace says that the processor got here.
Known(q) == [q EXCEPT !.ep = Len(q.out)]
\* ... and where that is.
Anchor(q) == [q EXCEPT !.an = 0, !.cr = FALSE]
NoAnchor(q) == [q EXCEPT !.an = -1, !.cr = FALSE]
\* An event that takes effect here.
Event(q, e) == Known([q EXCEPT !.out = Append(@, e)])
\* An event about which the trace only says that it happened since.
Loose(q, e) ==
  [q EXCEPT !.out = SubSeq(@, 1, q.ep) \o <<e>> \o SubSeq(@, q.ep + 1, Len(@)),
            !.ep = @ + 1]

E(t) == [k |-> "e", t |-> t]
Goto(q, a) == [q EXCEPT !.at = a]

Push(rs, a) ==
  IF Len(rs) < RetStackMax THEN Append(rs, a) ELSE Append(Tail(rs), a)

\* Several events.
RECURSIVE Events(_, _)
Events(q, e) == IF e = << >> THEN q ELSE Events(Event(q, Head(e)), Tail(e))
RECURSIVE LooseAll(_, _)
LooseAll(q, e) ==
  IF e = << >> THEN q ELSE LooseAll(Loose(q, Head(e)), Tail(e))

(***************************************************************************)
(* The mode is sent with the branch that changes it, and again when tracing *)
(* is enabled.  New is zero in events that repeat what is known.           *)
(***************************************************************************)
ModeItem(q, a) == [t |-> "mode", m |-> P[p].mode[a], f |-> q.fl]
ModePkt(q, a) ==
  IF P[p].mode[a] # q.mode THEN << ModeItem(q, a) >> ELSE << >>
ModeEv(q, a) ==
  IF P[p].mode[a] # q.mode
  THEN Events([q EXCEPT !.mode = P[p].mode[a], !.mk = TRUE],
             << [k |-> "e", t |-> "exec_mode", m |-> P[p].mode[a],
                 su |-> 0, a |-> a, new |-> TRUE],
                [k |-> "e", t |-> "iflags", f |-> q.fl, su |-> 0, a |-> a,
                 new |-> ~q.mk] >>)
  ELSE q

\* Addresses whose code exists.
EntriesOf(sp, vm) == {a \in P[p].entry : Code(sp, vm)[a].c # "none"}
Entries(q) == EntriesOf(q.sp, q.vm)
Same(q, S) == {a \in S : P[p].mode[a] = q.mode}
\* Where far transfers go; vm says whether they may change the vmcs.  Those
\* send the paging base and vmcs even if they stay the same.
Far(q, vm) ==
  {x \in (Pick({q.sp} \cup IF P[p].flags.cr3 THEN Spaces ELSE {})) \X
         (Pick({q.vm} \cup IF P[p].flags.cr3 /\ vm THEN Vms(q.sp) ELSE {}))
         \X P[p].entry
         \X Pick(IF P[p].flags.os /\ vm THEN BOOLEAN ELSE {FALSE})
     : /\ x[2] \in Vms(x[1])
       /\ Code(x[1], x[2])[x[3]].c # "none"}
\* The packets and the state that say so.
Pips(q, x) ==
  (IF x[2] # q.vm \/ (x[4] /\ x[2] # 0)
   THEN << [t |-> "vmcs", vm |-> x[2]] >> ELSE << >>) \o
  (IF x[1] # q.sp \/ x[4] THEN << [t |-> "pip", sp |-> x[1]] >> ELSE << >>)
PipEvs(q, x, async) ==
  (IF x[2] # q.vm \/ (x[4] /\ x[2] # 0)
   THEN << [k |-> "e", t |-> IF async THEN "async_vmcs" ELSE "vmcs",
            su |-> 0, vm |-> x[2], a |-> x[3]] >> ELSE << >>) \o
  (IF x[1] # q.sp \/ x[4]
   THEN << [k |-> "e", t |-> IF async THEN "async_paging" ELSE "paging",
            su |-> 0, sp |-> x[1], a |-> x[3]] >> ELSE << >>)
Moved(q, x) == [q EXCEPT !.sp = x[1], !.vm = x[2], !.at = x[3]]

(***************************************************************************)
(* Executing the instruction at q.at.                                      *)
(***************************************************************************)
FarCalls == {"fcall", "syscall"}
Fars == {"fcall", "syscall", "fret", "fjmp", "iret", "vmentry", "uiret"}
\* The trace does not say where these go.
Indirects == {"ijmp", "icall", "jmpabs", "ret"} \cup Fars

\* Where tracing is expected to resume if instruction i disables it.
Resume(i) ==
  CASE i.c \in {"jmp", "call"} -> i.t
    [] i.c \in {"icall"} \cup FarCalls -> i.n
    [] i.c \in {"ret", "ijmp", "jmpabs", "jcc"} \cup (Fars \ FarCalls) -> 0
    [] OTHER -> i.n

\* A direct branch that leaves the code that is traced.
Leaves(i) == /\ P[p].flags.filter /\ i.c \in {"jmp", "call", "jcc"}
             /\ i.t \in P[p].exits

Exec(q) ==
  LET i == InsnAt(q, q.at)
      v == See(q)
      F == P[p].flags
  IN
  CASE i.c = "other" -> {Goto(v, i.n)}
    [] i.c = "jmp" -> {Goto(v, i.t)}
    [] i.c = "call" ->
         {Goto([v EXCEPT !.rs = IF i.z THEN @ ELSE Push(@, i.n)], i.t)}
    [] i.c = "jcc" ->
         {Goto(Anchor(Known(SendTnt(v, b))), IF b THEN i.t ELSE i.n)
            : b \in Pick(IF i.t = 0 \/ Leaves(i) THEN {FALSE} ELSE
                         IF i.n = 0 THEN {TRUE} ELSE BOOLEAN)}
    [] i.c = "ret" ->
         LET top == IF v.rs = << >> THEN 0 ELSE v.rs[Len(v.rs)]
             \* nothing is deferred across it, and where the processor
             \* does not compress, it forgets the calls
             tip(a) == [Goto(Anchor(Known(Send(v, << [t |-> "tip", a |-> a,
                                                     o |-> Len(v.out)] >>))), a)
                        EXCEPT !.rs = << >>]
         IN IF top # 0 /\ Mapped(q, top) /\ P[p].mode[top] = q.mode
            THEN {IF z THEN tip(top)
                  ELSE Goto(Anchor(Known([SendTnt(v, TRUE) EXCEPT
                         !.rs = SubSeq(@, 1, Len(@) - 1)])), top)
                    : z \in Pick(IF F.comp THEN {FALSE} ELSE BOOLEAN)}
                 \cup IF F.comp THEN {} ELSE
                      {tip(a) : a \in Pick(Same(q, Entries(q)))}
            ELSE {tip(a) : a \in Pick(Same(q, Entries(q)))}
    [] i.c \in {"ijmp", "jmpabs"} ->
         {Goto(Anchor(Known(SendTip(v, a))), a)
            : a \in Pick(IF i.t # 0 THEN {i.t} ELSE Same(q, Entries(q)))}
    [] i.c = "icall" ->
         {Goto(Anchor(Known(SendTip([v EXCEPT !.rs = Push(@, i.n)], a))), a)
            : a \in Pick(Same(q, Entries(q)))}
    [] i.c = "mcr3" /\ ~F.os -> {}   \* privileged, cannot be traced
    [] i.c = "vmptrld" /\ ~F.os -> {Goto(v, i.n)}
    [] i.c = "mcr3" ->
         {LET x == <<sp, q.vm, i.n>>
              k == Send(v, << [t |-> "pip", sp |-> sp] >>)
          IN [NoAnchor(Event(Moved(k, x),
                         [k |-> "e", t |-> "paging", su |-> 0, sp |-> sp,
                          a |-> 0])) EXCEPT !.cr = TRUE]
            : sp \in Pick({x \in Spaces : /\ q.vm \in Vms(x)
                             /\ i.n # 0 => Code(x, q.vm)[i.n].c # "none"})}
    [] i.c = "vmptrld" ->
         {LET x == <<q.sp, vm, i.n>>
              k == Send(v, << [t |-> "vmcs", vm |-> vm] >>)
          IN NoAnchor(Event(Moved(k, x),
                        [k |-> "e", t |-> "vmcs", su |-> 0, vm |-> vm,
                         a |-> 0]))
            : vm \in Pick({x \in Vms(q.sp) \ {0} :
                         i.n # 0 => Code(q.sp, x)[i.n].c # "none"})}
    [] i.c = "ptwrite" ->
         {LET k == Send(v, << [t |-> "ptw", v |-> w, ip |-> f] >> \o
                           IF f THEN << [t |-> "fup", a |-> q.at] >>
                           ELSE << >>)
          IN NoAnchor(Goto(Event(k, [k |-> "e", t |-> "ptwrite", v |-> w,
                            a |-> IF f THEN q.at ELSE 0]), i.n))
            : w \in Pick(1..9), f \in Pick(BOOLEAN)}
    [] i.c = "cli" ->
         IF ~F.iflags \/ i.n = 0 THEN {Goto(v, i.n)}
         ELSE LET k == [v EXCEPT !.fl = 1 - @]
                  s1 == Send(k, << [t |-> "mode", m |-> k.mode, f |-> k.fl],
                                   [t |-> "fup", a |-> i.n] >>)
              IN {Anchor(Goto([Events(s1,
                    << [k |-> "e", t |-> "exec_mode", m |-> k.mode,
                        su |-> 0, a |-> i.n, new |-> ~k.mk],
                       [k |-> "e", t |-> "iflags", f |-> k.fl, su |-> 0,
                        a |-> i.n, new |-> TRUE] >>)
                    EXCEPT !.mk = TRUE], i.n))}
    [] i.c = "xbegin" ->
         {IF q.tx \/ i.n = 0 THEN Goto(v, i.n)
          ELSE LET k == Send(v, << [t |-> "tsx", tx |-> 1, ab |-> 0],
                                   [t |-> "fup", a |-> i.n] >>)
               IN NoAnchor(Goto(Event([k EXCEPT !.tx = TRUE],
                      [k |-> "e", t |-> "tsx", su |-> 0, spec |-> 1,
                       ab |-> 0, a |-> i.n]), i.n))}
    [] i.c = "xend" ->
         {IF ~q.tx \/ i.n = 0 THEN Goto(v, i.n)
          ELSE LET k == Send(v, << [t |-> "tsx", tx |-> 0, ab |-> 0],
                                   [t |-> "fup", a |-> i.n] >>)
               IN NoAnchor(Goto(Event([k EXCEPT !.tx = FALSE],
                      [k |-> "e", t |-> "tsx", su |-> 0, spec |-> 0,
                       ab |-> 0, a |-> i.n]), i.n))}
    [] i.c \in Fars ->
         \* A far transfer may change the mode and the address space; some
         \* are announced by an event.
         {LET ev == F.cfe /\ i.c \in {"iret", "uiret", "vmentry"} /\ y
              own == IF ev THEN << [t |-> "cfe", c |-> i.c, v |-> 0,
                                    ip |-> z] >> \o
                                IF z THEN << [t |-> "fup", a |-> q.at] >>
                                ELSE << >>
                     ELSE << >>
              e0 == IF ev THEN << [k |-> "e", t |-> i.c, su |-> 0,
                                   a |-> IF z THEN q.at ELSE 0] >>
                    ELSE << >>
              k == Send(v, own \o Pips(q, x) \o ModePkt(q, x[3]) \o
                           << [t |-> "tip", a |-> x[3], o |-> Len(v.out)] >>)
              k1 == Events(k, e0 \o PipEvs(q, x, FALSE))
          IN Anchor(ModeEv(Known(Moved(k1, x)), x[3]))
            : x \in Pick(Far(q, i.c = "vmentry")), y \in Pick(BOOLEAN),
              z \in Pick(BOOLEAN)}

(***************************************************************************)
(* The instruction at q.at leaves the traced code.                         *)
(***************************************************************************)
Leave(q) ==
  LET i == InsnAt(q, q.at)
      v == See(q)
      \* a far transfer may change the address space
      off(x, ip) == [Event(Send(x, << [t |-> "pgd", a |-> ip] >>),
                           [k |-> "e", t |-> "disabled", su |-> 0, a |-> ip])
                     EXCEPT !.on = FALSE, !.res = Resume(i), !.rs = << >>,
                            !.an = -1, !.cr = FALSE]
      \* a far transfer may change the address space
      far(x) == off(Events(Send(v, Pips(q, x)), PipEvs(q, x, FALSE)), 0)
      \* SKD022: this looks like an asynchronous disable
      skd(ip) == [Event(Send(v, << [t |-> "fup", a |-> q.at],
                                   [t |-> "pgd", a |-> ip] >>),
                        [k |-> "e", t |-> "disabled", su |-> 0, a |-> ip])
                  EXCEPT !.on = FALSE, !.res = Resume(i), !.rs = << >>,
                         !.an = -1, !.cr = FALSE]
  IN IF i.c = "vmentry" /\ P[p].flags.skd022
     THEN {skd(a) : a \in Pick({0} \cup P[p].exits)} ELSE
     (IF i.c \in Fars \cup {"mcr3"} /\ ~q.cr
      THEN {[far(x) EXCEPT !.sp = x[1], !.vm = x[2]]
              : x \in Pick(Far(q, i.c = "vmentry"))} ELSE {})
     \cup (IF i.c \in {"ret", "ijmp", "icall", "jmpabs", "fcall", "fret",
                       "fjmp", "syscall", "iret"}
           THEN {off(v, a) : a \in Pick(P[p].exits)} ELSE {})
     \cup (IF Leaves(i) /\ ~(q.cr /\ P[p].flags.skl014)
           THEN {off(v, IF P[p].flags.skl014 /\ i.c # "jcc" THEN 0 ELSE i.t)}
           ELSE {})

(***************************************************************************)
(* Things that happen before the instruction at q.at is executed.          *)
(***************************************************************************)
\* What event tracing says about an interrupt.
Cfes == {"none", "intr", "intr2", "smi", "init", "vmexit", "vmexitv", "uintr",
         "rsm", "sipi"}
Interrupt(q) ==
  {LET c == IF P[p].flags.cfe THEN c0 ELSE "none"
       own == c \notin {"none", "rsm", "sipi"} /\ z
       cfe == IF c = "none" THEN << >>
              ELSE << [t |-> "cfe", c |-> c, v |-> w, ip |-> own] >> \o
                   IF own THEN << [t |-> "fup", a |-> q.at] >> ELSE << >>
       ev == [k |-> "e", t |-> c, su |-> 0, v |-> w,
              a |-> IF c \in {"rsm", "sipi"} THEN 0 ELSE q.at]
       k == Send(q, cfe \o << [t |-> "fup", a |-> q.at] >> \o
                    Pips(q, x) \o ModePkt(q, x[3]) \o
                    << [t |-> "tip", a |-> x[3]] >>)
       k1 == IF c = "none" THEN k
             ELSE IF c \in {"rsm", "sipi"} THEN Loose(k, ev)
             ELSE Event(k, ev)
       k2 == Event(k1, [k |-> "e", t |-> "async_branch", a |-> q.at,
                        to |-> x[3]])
   IN Anchor(ModeEv(Moved(Events(k2, PipEvs(q, x, TRUE)), x), x[3]))
     : x \in Pick(Far(q, TRUE)), c0 \in Pick(Cfes), w \in Pick(0..9),
       z \in Pick(BOOLEAN)}

Abort(q) ==
  {LET k == Send(q, << [t |-> "tsx", tx |-> 0, ab |-> 1],
                       [t |-> "fup", a |-> q.at],
                       [t |-> "tip", a |-> a] >>)
       k1 == Event([k EXCEPT !.tx = FALSE],
                   [k |-> "e", t |-> "tsx", su |-> 0, spec |-> 0, ab |-> 1,
                    a |-> q.at])
   IN Anchor(Goto(Event(k1, [k |-> "e", t |-> "async_branch", a |-> q.at,
                             to |-> a]), a))
     : a \in Pick(Same(q, Entries(q)))}

AsyncDisable(q) ==
  {LET k == Send(q, << [t |-> "fup", a |-> q.at], [t |-> "pgd", a |-> ip] >>)
   IN [Event(k, [k |-> "e", t |-> "async_disabled", su |-> 0, a |-> ip,
                 at |-> q.at])
       EXCEPT !.on = FALSE, !.res = q.at, !.rs = << >>, !.an = -1,
              !.cr = FALSE]
     : ip \in IF P[p].flags.skd022 /\ InsnAt(q, q.at).c = "vmentry" THEN {}
              ELSE Pick({0} \cup P[p].exits)}

\* BDM64: a transaction is aborted right after a branch, about which the
\* trace is wrong.
RECURSIVE Reaches(_, _, _)
Reaches(q, a, b) ==
  \/ a = b
  \/ /\ Mapped(q, a)
     /\ LET i == InsnAt(q, a)
        IN CASE i.c \in {"jmp", "call"} -> Reaches(q, i.t, b)
             [] i.c \in Indirects \cup {"jcc"} -> FALSE
             [] OTHER -> Reaches(q, i.n, b)
Bdm64(q) ==
  LET i == InsnAt(q, q.at)
      v == IF i.c = "ret" THEN [See(q) EXCEPT !.rs = << >>]
           ELSE IF i.c = "icall" THEN [See(q) EXCEPT !.rs = Push(@, i.n)]
           ELSE See(q)
      ab(k, real, a) ==
        LET k1 == Event([Send(k, << [t |-> "tsx", tx |-> 0, ab |-> 1],
                                    [t |-> "fup", a |-> real],
                                    [t |-> "tip", a |-> a] >>)
                         EXCEPT !.tx = FALSE],
                        [k |-> "e", t |-> "tsx", su |-> 0, spec |-> 0,
                         ab |-> 1, a |-> real])
        IN Anchor(Goto(Event(k1, [k |-> "e", t |-> "async_branch",
                                  a |-> real, to |-> a]), a))
  IN UNION {{ab(Send(v, << [t |-> "tip", a |-> wrong] >>), real, a)
               : wrong \in Pick({x \in Same(q, Entries(q)) :
                                  ~Reaches(q, x, real)}),
                 a \in Pick(Same(q, Entries(q)))}
              : real \in IF i.c \in {"ijmp", "icall", "ret"}
                         THEN Pick(Same(q, Entries(q))) ELSE {}}
     \cup
     {ab(Flush([v EXCEPT !.db.tnt = Append(@, b)]),
         IF b THEN i.n ELSE i.t, a)
       : b \in IF i.c # "jcc" THEN {}
               ELSE {x \in BOOLEAN : /\ i.t # 0 /\ i.n # 0
                      /\ i.t \notin P[p].exits
                      /\ ~Reaches(q, IF x THEN i.t ELSE i.n,
                                     IF x THEN i.n ELSE i.t)},
         a \in Pick(Same(q, Entries(q)))}

\* Packets are lost; the processor is at a when they resume.
Overflow(q) ==
  LET lost == [q EXCEPT !.out = SubSeq(@, 1, q.ep), !.tx = FALSE,
                        !.rs = << >>, !.mk = FALSE]
  IN {LET k == Send(lost, << [t |-> "ovf"], [t |-> "fup", a |-> a] >>)
      IN Anchor(Goto([Event(k, [k |-> "e", t |-> "overflow", a |-> a])
                      EXCEPT !.on = TRUE], a))
        : a \in Pick(Same(q, Entries(q)))}
     \cup {LET k == Send(lost, << [t |-> "ovf"] >>)
           IN [Event(k, [k |-> "e", t |-> "overflow", a |-> 0])
               EXCEPT !.on = FALSE, !.res = 0, !.an = -1]}

Psb(q) ==
  LET tsx == [t |-> "tsx", tx |-> IF q.tx THEN 1 ELSE 0, ab |-> 0]
      mode == [t |-> "mode", m |-> q.mode, f |-> q.fl]
      pip == [t |-> "pip", sp |-> q.sp]
      vm == [t |-> "vmcs", vm |-> q.vm]
      fup == [t |-> "fup", a |-> q.at]
      full == P[p].flags.os
      here == IF q.on THEN q.at ELSE 0
      pk == (IF full /\ q.vm # 0 THEN <<vm>> ELSE << >>) \o
            (IF full THEN <<pip>> ELSE << >>) \o
            (IF q.on THEN <<mode, tsx, fup>> ELSE << >>)
      ev == (IF q.on THEN << [k |-> "e", t |-> "enabled", su |-> 1,
                              a |-> q.at, res |-> 0] >>
             ELSE << [k |-> "e", t |-> "disabled", su |-> 1, a |-> 0] >>) \o
            (IF full /\ q.vm # 0
             THEN << [k |-> "e", t |-> "async_vmcs", su |-> 1, vm |-> q.vm,
                      a |-> here] >> ELSE << >>) \o
            (IF full THEN << [k |-> "e", t |-> "async_paging", su |-> 1,
                              sp |-> q.sp, a |-> here] >> ELSE << >>) \o
            (IF q.on
             THEN << [k |-> "e", t |-> "exec_mode", su |-> 1, m |-> q.mode,
                      a |-> q.at, new |-> TRUE],
                     [k |-> "e", t |-> "iflags", su |-> 1, f |-> q.fl,
                      a |-> q.at, new |-> TRUE],
                     [k |-> "e", t |-> "tsx", su |-> 1, ab |-> 0,
                      spec |-> IF q.tx THEN 1 ELSE 0, a |-> q.at] >>
             ELSE << >>)
      k == Send(q, << [t |-> "psb", on |-> q.on] >> \o pk \o
                   << [t |-> "psbend"] >>)
      \* that tracing is enabled is said at once, the rest where it holds
      k1 == IF q.on THEN Loose(k, ev[1]) ELSE k
      rest == IF q.on THEN Tail(ev) ELSE ev
  IN {[Events(k1, << [k |-> "psb", on |-> q.on] >> \o rest)
       EXCEPT !.rs = << >>, !.an = -1, !.cr = FALSE, !.mk = @ \/ q.on]}

\* Packets that do not say where they belong.
Elsewhere(q) ==
  {Loose(Send(q, << [t |-> "cbr", v |-> v] >>),
         [k |-> "e", t |-> "cbr", v |-> v]) : v \in Pick(1..99)}
  \cup {Loose(Send(q, << [t |-> "mnt", v |-> v] >>),
              [k |-> "e", t |-> "mnt", v |-> v]) : v \in Pick(1..99)}
  \cup {Loose(Send(q, << [t |-> "pwrx", v |-> v] >>),
              [k |-> "e", t |-> "pwrx", v |-> v]) : v \in Pick(1..9)}
  \cup {Loose(Send(q, << [t |-> "pwre", v |-> v] >>),
              [k |-> "e", t |-> "pwre", v |-> v]) : v \in Pick(1..9)}
  \cup {Loose(Send(q, << [t |-> "exstop", ip |-> FALSE] >>),
              [k |-> "e", t |-> "exstop", a |-> 0])}

\* A trigger: here, where execution will be after as many instructions as
\* were executed since the trace last gave an address, or somewhere.
Trig(q) ==
  {LET k == Send(q, << [t |-> "trig", v |-> v, ip |-> TRUE, n |-> 0],
                       [t |-> "fup", a |-> q.at] >>)
   IN Anchor(Event(k, [k |-> "e", t |-> "trig", v |-> v, a |-> q.at]))
     : v \in IF q.on THEN Pick(1..9) ELSE {}}
  \cup {LET k == Send(q, << [t |-> "trig", v |-> v, ip |-> FALSE,
                            n |-> q.an] >>)
        IN Anchor(Event(k, [k |-> "e", t |-> "trig", v |-> v, a |-> q.at]))
          : v \in IF q.on /\ q.an >= 0 THEN Pick(1..9) ELSE {}}
  \cup {LET k == Send(q, << [t |-> "trig", v |-> v, ip |-> FALSE,
                            n |-> -1] >>)
        IN Loose(k, [k |-> "e", t |-> "trig", v |-> v, a |-> 0])
          : v \in Pick(1..9)}

\* Execution stops before the instruction at q.at.
Exstop(q) ==
  {LET k == Send(q, (IF w THEN << [t |-> "mwait", v |-> 7] >> ELSE << >>) \o
                    << [t |-> "exstop", ip |-> TRUE],
                       [t |-> "fup", a |-> q.at] >>)
       k1 == IF w THEN Event(k, [k |-> "e", t |-> "mwait", v |-> 7,
                                 a |-> q.at])
             ELSE k
   IN Anchor(Event(k1, [k |-> "e", t |-> "exstop", a |-> q.at]))
     : w \in Pick(BOOLEAN)}

(***************************************************************************)
(* While tracing is disabled.                                              *)
(***************************************************************************)
Enable(q) ==
  {LET k == Send(q, << ModeItem(q, a), [t |-> "pge", a |-> a] >>)
       k1 == Event(k, [k |-> "e", t |-> "enabled", su |-> 0, a |-> a,
                       res |-> IF a = q.res THEN 1 ELSE 0])
       k2 == Events(k1, << [k |-> "e", t |-> "exec_mode", m |-> P[p].mode[a],
                            su |-> 0, a |-> a,
                            new |-> ~q.mk \/ P[p].mode[a] # q.mode],
                           [k |-> "e", t |-> "iflags", f |-> q.fl, su |-> 0,
                            a |-> a, new |-> ~q.mk] >>)
   IN Anchor([Goto(k2, a) EXCEPT !.on = TRUE, !.res = 0,
                                 !.mk = TRUE, !.mode = P[p].mode[a]])
     : a \in Pick(Entries(q)) \cup
            (IF q.res # 0 /\ Mapped(q, q.res) THEN {q.res} ELSE {})}

Stop(q) == {Event(Send(q, << [t |-> "stop"] >>), E("stop"))}

\* The address space changes while it is not traced.
Switch(q) ==
  {Event([Send(q, << [t |-> "pip", sp |-> sp] >>) EXCEPT !.sp = sp],
         [k |-> "e", t |-> "paging", su |-> 0, sp |-> sp, a |-> 0])
     : sp \in Pick({x \in Spaces : q.vm \in Vms(x) /\
                                   EntriesOf(x, q.vm) # {}})}
  \cup
  {Event([Send(q, << [t |-> "vmcs", vm |-> vm] >>) EXCEPT !.vm = vm],
         [k |-> "e", t |-> "vmcs", su |-> 0, vm |-> vm, a |-> 0])
     : vm \in Pick({x \in Vms(q.sp) \ {0} : EntriesOf(q.sp, x) # {}})}
\* A transaction begins or ends while branches are not traced.
Tsx0(q) ==
  {LET tx == IF q.tx THEN 0 ELSE 1
       k == Send(q, << [t |-> "tsx", tx |-> tx, ab |-> ab] >>)
   IN Event([k EXCEPT !.tx = ~@],
            [k |-> "e", t |-> "tsx", su |-> 0, spec |-> tx, ab |-> ab,
             a |-> 0])
     : ab \in IF q.tx THEN Pick({0, 1}) ELSE {0}}
\* Event tracing while branches are not traced.
Far0(q) ==
  {Loose(Send(q, << [t |-> "cfe", c |-> c, v |-> w, ip |-> FALSE] >>),
         [k |-> "e", t |-> c, su |-> 0, v |-> w, a |-> 0])
     : c \in Pick({"intr", "intr2", "iret", "smi", "rsm", "sipi", "init",
                   "vmentry", "vmexit", "vmexitv", "shutdown", "uintr",
                   "uiret"}), w \in Pick(0..9)}

(***************************************************************************)
(* The system.                                                             *)
(***************************************************************************)
\* Weights of the actions.
Weight == [exec |-> 30, leave |-> 2, intr |-> 2, abort |-> 4, adis |-> 1,
           ovf |-> 1, psb |-> 1, else |-> 1, exstop |-> 1, enable |-> 6,
           stop |-> 1, switch |-> 1, trig |-> 2, cfe |-> 1, tsx |-> 1,
           bdm64 |-> 20]

Deck == UNION {{a} \X (1..Weight[a]) : a \in DOMAIN Weight}

Can(q, a) ==
  CASE a = "exec" -> q.on /\ ~(/\ Leaves(InsnAt(q, q.at))
                               /\ InsnAt(q, q.at).c # "jcc")
    [] a \in {"intr", "adis", "exstop"} -> q.on
    [] a = "leave" -> q.on /\ (InsnAt(q, q.at).c \notin
                        {"other", "ptwrite", "vmptrld", "xbegin", "xend",
                         "cli", "jmp", "call", "jcc"}
                        \/ Leaves(InsnAt(q, q.at)))
    [] a = "abort" -> q.on /\ q.tx
    [] a = "bdm64" -> /\ q.on /\ q.tx /\ P[p].flags.bdm64
                      /\ InsnAt(q, q.at).c \in {"ijmp", "icall", "ret", "jcc"}
    [] a \in {"ovf", "psb", "else"} -> TRUE
    [] a \in {"enable", "stop", "tsx"} -> ~q.on
    [] a = "switch" -> ~q.on /\ P[p].flags.cr3
    [] a = "trig" -> P[p].flags.trig
    [] a = "cfe" -> ~q.on /\ P[p].flags.cfe

Do(q, a) ==
  CASE a = "exec" -> Exec(q)
    [] a = "leave" -> Leave(q)
    [] a = "intr" -> Interrupt(q)
    [] a = "abort" -> Abort(q)
    [] a = "bdm64" -> Bdm64(q)
    [] a = "adis" -> AsyncDisable(q)
    [] a = "ovf" -> Overflow(q)
    [] a = "psb" -> Psb(q)
    [] a = "else" -> Elsewhere(q)
    [] a = "exstop" -> Exstop(q)
    [] a = "enable" -> Enable(q)
    [] a = "stop" -> Stop(q)
    [] a = "switch" -> Switch(q)
    [] a = "trig" -> Trig(q)
    [] a = "cfe" -> Far0(q)
    [] a = "tsx" -> Tsx0(q)

\* The processor went on to where the trace ends: the instructions that need
\* no trace, and the first that does.
RECURSIVE Rest(_)
Rest(q) ==
  IF ~q.on THEN [q |-> q, e |-> "eos"]
  ELSE IF ~Mapped(q, q.at) THEN [q |-> q, e |-> "nomap"]
  ELSE LET i == InsnAt(q, q.at) IN
       IF i.c \in {"jmp", "call"} THEN Rest(Goto(See(q), i.t))
       ELSE IF i.c \in Indirects \cup {"jcc"} THEN [q |-> See(q), e |-> "eos"]
       ELSE Rest(Goto(See(q), i.n))

Start(a, sp, vm) ==
  [on |-> TRUE, at |-> a, sp |-> sp, vm |-> vm, tx |-> FALSE,
   rs |-> << >>, res |-> 0, mode |-> P[p].mode[a],
   db |-> [tnt |-> << >>, tip |-> << >>], tr |-> << >>, out |-> << >>,
   ep |-> 0, fl |-> 0, mk |-> TRUE, an |-> -1, cr |-> FALSE]

Steps == P[p].steps

Init == /\ p \in DOMAIN P
        /\ s = [on |-> FALSE, at |-> 0, rs |-> << >>]
        /\ n = 0

Next ==
  \/ /\ n = 0
     /\ \E x \in Pick({x \in Spaces \X (0..3) \X P[p].entry :
                         /\ x[2] \in Vms(x[1])
                         /\ Code(x[1], x[2])[x[3]].c # "none"}) :
          s' \in Pick(Psb(Start(x[3], x[1], x[2])))
     /\ n' = 1 /\ UNCHANGED p
  \/ /\ n \in 1..Steps
     /\ s.on => Mapped(s, s.at)
     /\ \E a \in Pick({y \in Deck \cup P[p].flags.more \X (51..60) :
                         Can(s, y[1]) /\ y[1] \notin P[p].flags.never}) :
          s' \in Pick(Do(s, a[1]))
     /\ n' = n + 1 /\ UNCHANGED p
  \/ /\ n >= 1 /\ (n = Steps + 1 \/ (s.on /\ ~Mapped(s, s.at)))
     /\ LET r == Rest(Flush(s)) IN s' = [r.q EXCEPT !.res = r.e]
     /\ n' = -1 /\ UNCHANGED p
==============================================================================
