------------------------------ MODULE FlowTime ------------------------------
(***************************************************************************)
(* Time in the instruction flow and the block decoder.                     *)
(*                                                                         *)
(* A flow decoder uses a taken/not-taken bit or a branch target for every  *)
(* branch that the code does not determine, and hands out events.  The     *)
(* time, the number of lost packets and the core:bus ratio that it reports *)
(* are those of what it used last:                                         *)
(*                                                                         *)
(*   the instruction flow decoder asks the query layer, and reports its    *)
(*   time, which includes one event that has been read ahead;              *)
(*                                                                         *)
(*   the block decoder works on events, and moves on to the time of an     *)
(*   event when it is done with it.                                        *)
(*                                                                         *)
(* With tick events, a branch at another time than that of the last event  *)
(* is followed by a tick with the branch's time.                           *)
(*                                                                         *)
(* One recorded decode per line:  c: configuration; ops: calls.            *)
(*   op   "s" synchronized at so, "i" an instruction or block that ends    *)
(*        with class cls ("" for none), "e" event ev                       *)
(*   layer, tick   "i" or "b", 1 if tick events are enabled               *)
(*   te tsc lm lc ce cbr   the time after the call                         *)
(* The recording ends with the first error.  s: the states that explain    *)
(* the calls so far.  Which branches use the trace, and when the decoder   *)
(* looks at the event behind an instruction, is left open.                 *)
(***************************************************************************)
EXTENDS QueryDecoder, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 64

VARIABLES i, k, s
vars == <<i, k, s>>

L == Trace[i]
Cfg == L.c
Op == L.ops[k + 1]
Block == L.layer = "b"
Ticks == L.tick = 1

\* What can be seen of the time.
Short(t) == [h |-> t.have_tsc, tsc |-> IF t.have_tsc THEN t.tsc ELSE W0,
             lm |-> t.lm, lc |-> t.lc]
TimeOf(ev) == [h |-> ev.ht = 1, tsc |-> IF ev.ht = 1 THEN ev.tsc ELSE W0,
               lm |-> ev.lm, lc |-> ev.lc]
Told == [h |-> Op.te = "", tsc |-> Op.tsc, lm |-> Op.lm, lc |-> Op.lc]

Hidden == {"exec_mode", "iflags"}     \* no event if nothing changed
Same(a, b) == /\ a.t = b.t \/ {a.t, b.t} = {"disabled", "async_disabled"}
              /\ a.ht = b.ht /\ a.tsc = b.tsc /\ a.lm = b.lm /\ a.lc = b.lc
Conds == {"cond_jump", "return"}
NoTargets == {"", "other", "error", "ptwrite", "cond_jump"}

-----------------------------------------------------------------------------
(* The instruction flow decoder: q the query layer, pend the event that     *)
(* has been read, et the last event's time, b the branch to be done.        *)
ISync(q) == [q |-> q, pend |-> NoEv, et |-> W0, b |-> ""]

IRead(t) ==
  LET x == QEvent(Cfg, t.q)
  IN IF t.pend.t = "" /\ Flags(t.q) = PEvent /\ x.e = ""
     THEN {[t EXCEPT !.q = x.q, !.pend = x.ev, !.et = x.ev.tsc]} ELSE {}
IHide(t) == IF t.pend.t \in Hidden THEN {[t EXCEPT !.pend = NoEv]} ELSE {}

ITick(t) == [NoEv EXCEPT !.t = "tick", !.ht = IF t.have_tsc THEN 1 ELSE 0,
                         !.tsc = IF t.have_tsc THEN t.tsc ELSE W0,
                         !.lm = t.lm, !.lc = t.lc]
IBranched(t, q) ==
  LET n == [t EXCEPT !.q = q, !.b = ""]
      ticked == [n EXCEPT !.pend = ITick(q.lt), !.et = q.lt.tsc]
  IN IF ~Ticks \/ t.pend.t # "" THEN {n}
     ELSE IF ~q.lt.have_tsc THEN {n, ticked}
     ELSE IF q.lt.tsc # t.et THEN {ticked} ELSE {n}
IBranch(t) ==
  LET c == CondBranch(Cfg, t.q)
      n == IndirectBranch(Cfg, t.q)
  IN IF t.pend.t = "tick" THEN {}
     ELSE (IF t.b \in Conds /\ c.e = "" THEN IBranched(t, c.q) ELSE {})
          \cup
          (IF t.b \notin NoTargets /\ n.e = "" THEN IBranched(t, n.q) ELSE {})
IDeliver(t) == IF t.pend.t # "" /\ Same(t.pend, Op.ev)
               THEN {[t EXCEPT !.pend = NoEv]} ELSE {}
ITime(t) == Short(t.q.lt)
IRatio(t) == IF t.q.lt.have_cbr THEN t.q.lt.cbr ELSE 0

-----------------------------------------------------------------------------
(* The block decoder: d the event decoder, ev the current event, left the   *)
(* number of unused taken/not-taken bits, now the time, cbr the ratio.      *)
BNow(d, ev, now, cbr, b) ==
  [d |-> d, ev |-> ev, left |-> IF ev.t = "tnt" THEN ev.p.n ELSE 0,
   now |-> now, cbr |-> cbr, b |-> b]
BSync(q) == BNow(q.d, q.ev, Short(Time0), 0, "")

\* Done with the current event.
BFetch(t) ==
  LET x == NextEvent(Cfg, t.d)
  IN BNow(x.d, IF x.c = "ev" THEN x.ev ELSE LastEv, TimeOf(t.ev), t.cbr, t.b)
BLate(t) == t.ev.tsc # t.now.tsc
\* Relative time is not told.
BRel(t) == t.ev.ht = 0 \/ ~t.now.h
BHide(t) == IF t.ev.t \in Hidden THEN {BFetch(t)} ELSE {}
\* A packet with taken/not-taken bits is kept until the bits have been used
\* and its tick has been given.  Events do not give one.
BDone(t) ==
  IF /\ t.ev.t = "tnt" /\ t.left = 0
     /\ ~Ticks \/ t.ev.ht = 0 \/ ~BLate(t) \/ Op.op = "e"
  THEN {BFetch(t)} ELSE {}
BCond(t) == IF t.ev.t = "tnt" /\ t.left > 0
            THEN {[t EXCEPT !.left = @ - 1, !.b = ""]} ELSE {}
\* A target may come behind bits that are still in use.
BIndirect(t) ==
  LET x == NextEvent(Cfg, t.d)
      n == [t EXCEPT !.b = ""]
  IN CASE t.ev.t = "tip" ->
            (IF Ticks /\ (BLate(t) \/ BRel(t))
             THEN {[n EXCEPT !.ev.t = "tick"]} ELSE {})
            \cup (IF Ticks /\ BLate(t) /\ ~BRel(t) THEN {} ELSE {BFetch(n)})
       [] t.ev.t = "tnt" ->
            IF x.c = "ev" /\ x.ev.t = "tip" THEN {[n EXCEPT !.d = x.d]}
            ELSE {}
       [] OTHER -> {}
BBranch(t) == (IF t.b \in Conds THEN BCond(t) ELSE {})
              \cup (IF t.b \notin NoTargets THEN BIndirect(t) ELSE {})
BDeliver(t) ==
  IF Ticks /\ t.ev.t = "tnt" /\ t.ev.ht = 1 /\ BLate(t)
  THEN IF Same([t.ev EXCEPT !.t = "tick"], Op.ev)
       THEN {[t EXCEPT !.now = TimeOf(t.ev)]} ELSE {}
  ELSE IF t.ev.t \notin {"tnt", "tip", "none"} /\ Same(t.ev, Op.ev)
  THEN {BFetch([t EXCEPT !.cbr = IF t.ev.t = "cbr" THEN t.ev.p.ratio ELSE @])}
  ELSE {}

-----------------------------------------------------------------------------
Move(t) == IF Block THEN BHide(t) \cup BDone(t) \cup BBranch(t)
           ELSE IRead(t) \cup IHide(t) \cup IBranch(t)
\* Everything the decoder may do between two calls' answers.
RECURSIVE Moves(_, _)
Moves(S, n) ==
  IF n = 0 \/ S = {} THEN S
  ELSE S \cup Moves(UNION {Move(t) : t \in S}, n - 1)
Deliver(t) == IF Block THEN BDeliver(t) ELSE IDeliver(t)
Ends(t) == [t EXCEPT !.b = Op.cls]

After(S) ==
  CASE Op.op = "s" -> LET r == QAt(Cfg, Qry0, Op.so)
                      IN IF r.e # "" THEN {}
                         ELSE Moves({IF Block THEN BSync(r.q)
                                     ELSE ISync(r.q)}, 2)
    [] Op.op = "i" -> Moves({Ends(t) : t \in Moves(S, 2)}, 3)
    [] Op.op = "e" -> Moves(UNION {Deliver(t) : t \in Moves(S, 3)}, 3)

TimeOk(t) ==
  /\ Op.te \in {"", "no_time"}
  /\ Told = IF Block THEN t.now ELSE ITime(t)
  /\ LET r == IF Block THEN t.cbr ELSE IRatio(t)
     IN Op.ce = (IF r = 0 THEN "no_cbr" ELSE "") /\ Op.cbr = r

-----------------------------------------------------------------------------
TraceInit == i \in 1..Least(Chains, Len(Trace)) /\ k = 0 /\ s = {}
Step == /\ k < Len(L.ops) /\ k' = k + 1 /\ i' = i
        /\ s' = {t \in After(s) : TimeOk(t)}
        /\ s' # {}
NextDecode == /\ k = Len(L.ops) /\ i + Chains <= Len(Trace)
              /\ i' = i + Chains /\ k' = 0 /\ s' = {}
Done == k = Len(L.ops) /\ i + Chains > Len(Trace) /\ UNCHANGED vars
TraceNext == Step \/ NextDecode \/ Done
=============================================================================
