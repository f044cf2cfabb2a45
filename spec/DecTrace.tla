------------------------------ MODULE DecTrace ------------------------------
(***************************************************************************)
(* Recorded histories of the packet, event and query decoder are histories *)
(* of Sync, EventDecoder and QueryDecoder.                                 *)
(*                                                                         *)
(* One history per line; a step of this specification is one recorded      *)
(* call.  A call that the specification does not allow has no step: the    *)
(* state before it is a deadlock.                                          *)
(***************************************************************************)
EXTENDS QueryDecoder, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 64

VARIABLES i, \* the history
          k, \* calls made
          s, \* the specification's state
          m  \* "sync", or "err", "lost" after an error
vars == <<i, k, s, m>>

PktState == [pos |-> -1, sync |-> -1]
State0(l) == IF l = "p" THEN PktState ELSE IF l = "e" THEN Dec0 ELSE Qry0

Init == /\ i \in 1..Least(Chains, Len(Trace))
        /\ k = 0 /\ s = State0(Trace[i].layer) /\ m = "sync"

L == Trace[i]
Cfg == L.c
Op == L.ops[k + 1]
InBuf(x) == x >= -1 /\ x <= Len(Cfg.buf)

-----------------------------------------------------------------------------
(* Packet layer.                                                           *)
PktSync(r) == \* r: the sync point found
  /\ m' = m
  /\ IF r < 0 THEN Op.e = "eos" /\ s' = s
     ELSE Op.e = "" /\ s' = [pos |-> r, sync |-> r]
PktStep ==
  /\ CASE Op.op = "F" -> PktSync(Forward(Cfg.buf, s.pos, s.sync))
       [] Op.op = "B" -> \E r \in Backward(Cfg.buf, s.pos) : PktSync(r)
       [] Op.op = "S" -> IF Op.arg > Len(Cfg.buf)
                         THEN Op.e = "eos" /\ s' = s /\ m' = m
                         ELSE Op.e = "" /\ m' = m
                              /\ s' = [pos |-> Op.arg, sync |-> Op.arg]
       [] OTHER ->
            LET x == PktAt(Cfg, s.pos) IN
            /\ m' = m
            /\ IF s.pos < 0 THEN Op.e = "nosync" /\ s' = s
               ELSE /\ Op.e = x.err
                    /\ s' = [s EXCEPT !.pos = @ + x.n]
                    /\ x.err = "" => Op.pkt = x.pkt
  /\ Op.off = s'.pos /\ Op.so = s'.sync

-----------------------------------------------------------------------------
(* Event layer.  A failed backward synchronization leaves the decoder      *)
(* wherever it is ("lost"); errors of the trace leave it without further   *)
(* promises until it is synchronized again ("err"); going on anyway        *)
(* forfeits its position ("lost").                                         *)
AfterErr(e) == IF e = "" THEN "sync" ELSE "err"
IsSync == Op.op \in {"F", "B", "S"}
At0(d) == Op.off = Here(d) /\ Op.so = d.sync

\* An offset outside of the trace leaves the decoder where it is.
Outside == Op.op = "S" /\ Op.arg > Len(Cfg.buf)
EvtSync(r) == /\ Op.e = r.e
              /\ s' = r.d
              /\ m' = IF Outside /\ m = "lost" THEN m ELSE AfterErr(r.e)
              /\ r.e = "" => At0(r.d)
EvtBack(r) == /\ Op.e = r.e
              /\ IF r.e = "" THEN s' = r.d /\ At0(r.d) /\ m' = "sync"
                 ELSE s' = Dec0 /\ m' = "lost"
EvtLost == IF Op.e # "" THEN UNCHANGED <<s, m>>
           ELSE /\ Op.so \in SyncPoints(Cfg.buf)
                /\ EvtSync(SyncAt(Cfg, Dec0, Op.so))
EvtStep ==
  CASE Op.op = "S" -> EvtSync(SyncAt(Cfg, s, Op.arg))
    [] IsSync /\ m = "lost" -> EvtLost
    [] Op.op = "F" -> EvtSync(SyncForward(Cfg, s))
    [] Op.op = "B" -> \E r \in SyncBackward(Cfg, s) : EvtBack(r)
    [] ~IsSync /\ m # "sync" -> s' = s /\ m' = "lost"
    [] OTHER ->
         LET x == NextEvent(Cfg, s) IN
         /\ Op.e = x.e
         /\ s' = x.d
         /\ m' = IF x.e \in {"", "eos", "nosync"} THEN m ELSE "err"
         /\ x.e = "" => Op.ev = x.ev
         /\ x.e # "nosync" => At0(s')

-----------------------------------------------------------------------------
(* Query layer.                                                            *)
TimeIs(t) ==
  /\ Op.te = (IF t.have_tsc THEN "" ELSE "no_time")
  /\ Op.tsc = (IF t.have_tsc THEN t.tsc ELSE W0)
  /\ Op.lm = t.lm /\ Op.lc = t.lc
  /\ Op.ce = (IF t.have_cbr THEN "" ELSE "no_cbr")
  /\ Op.cbr = (IF t.have_cbr THEN t.cbr ELSE 0)
QryAt(r) == At0(r.q.d) /\ TimeIs(r.q.lt) /\ Op.ip = r.ip
QrySync(r) ==
  /\ Op.e = r.e /\ Op.st = r.st /\ s' = r.q
  /\ m' = IF Outside /\ m = "lost" THEN m ELSE AfterErr(r.e)
  /\ r.e = "" => QryAt(r)
QryBack(r) ==
  /\ Op.e = r.e /\ Op.st = r.st
  /\ IF r.e = "" THEN s' = r.q /\ QryAt(r) /\ m' = "sync"
     ELSE s' = Qry0 /\ m' = "lost"
QryLost == IF Op.e # "" THEN UNCHANGED <<s, m>>
           ELSE /\ Op.so \in SyncPoints(Cfg.buf)
                /\ QrySync(QAt(Cfg, Qry0, Op.so))
QryStep ==
  CASE Op.op = "S" -> QrySync(QAt(Cfg, s, Op.arg))
    [] IsSync /\ m = "lost" -> QryLost
    [] Op.op = "F" -> QrySync(QForward(Cfg, s))
    [] Op.op = "B" -> \E r \in QBackward(Cfg, s) : QryBack(r)
    [] ~IsSync /\ m # "sync" -> s' = s /\ m' = "lost"
    [] OTHER ->
         LET x == CASE Op.op = "C" -> CondBranch(Cfg, s)
                    [] Op.op = "I" -> IndirectBranch(Cfg, s)
                    [] Op.op = "E" -> QEvent(Cfg, s)
         IN /\ Op.e = x.e /\ Op.st = x.st
            /\ s' = x.q
            /\ m' = m
            /\ x.e = "" => CASE Op.op = "C" -> Op.tk = x.tk
                             [] Op.op = "I" -> Op.ip = x.ip
                             [] Op.op = "E" -> Op.ev = x.ev
            /\ x.e # "nosync" => At0(s'.d)
            /\ TimeIs(s'.lt)

-----------------------------------------------------------------------------
Step == /\ k < Len(L.ops)
        /\ k' = k + 1 /\ i' = i
        /\ InBuf(Op.off) /\ InBuf(Op.so)
        /\ CASE L.layer = "p" -> PktStep
             [] L.layer = "e" -> EvtStep
             [] L.layer = "q" -> QryStep
\* The documented decode loop ended because there is no more trace.
Ended == L.loop = 1 => /\ L.ops # << >>
                       /\ L.ops[Len(L.ops)].op = "F"
                       /\ L.ops[Len(L.ops)].e = "eos"
NextHistory == /\ k = Len(L.ops)
               /\ Ended
               /\ i + Chains <= Len(Trace)
               /\ i' = i + Chains /\ k' = 0
               /\ s' = State0(Trace[i'].layer) /\ m' = "sync"
Done == k = Len(L.ops) /\ Ended /\ i + Chains > Len(Trace) /\ UNCHANGED vars
Next == Step \/ NextHistory \/ Done
=============================================================================
