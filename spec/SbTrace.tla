------------------------------- MODULE SbTrace -------------------------------
(***************************************************************************)
(* Recorded sessions are behaviours of SbSession: i is the line, k the     *)
(* number of steps that have been explained.                               *)
(***************************************************************************)
EXTENDS SbSession, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, k

TraceInit == SbInit /\ i \in 1..Len(Trace) /\ k = 0

Lacks(s) == (IF s.nf = 1 THEN {"fetch"} ELSE {}) \cup
            (IF s.na = 1 THEN {"apply"} ELSE {}) \cup
            (IF s.np = 1 THEN {"print"} ELSE {})

(* The event that decoders are given is the user's. *)
SameEvent(s) ==
  s.t = call.t /\ s.has = call.has /\ s.ty = call.ty /\ s.ip = call.ip

Step(s) ==
  CASE s.k = "alloc" -> Alloc(s.d, s.prim = 1, Lacks(s), s.e, s.fail = 1)
    [] s.k = "init"  -> Call([k |-> "init"])
    [] s.k = "event" -> Call([k |-> "event", t |-> s.t, st |-> s.st = 1,
                              bad |-> s.small = 1, has |-> s.has,
                              ip |-> s.ip, ty |-> 0])
    [] s.k = "dump"  -> Call([k |-> "dump", t |-> s.t])
    [] s.k = "free"  -> Call([k |-> "free"])
    [] s.k = "fetch" -> Fetched(s.d, s.e, s.t)
    [] s.k = "print" -> s.fl = 3 /\ Printed(s.d, s.e)
    [] s.k = "apply" -> SameEvent(s) /\ Applied(s.d, s.e, s.in, s.out)
    [] s.k = "dtor"  -> Destroyed(s.d)
    [] s.k = "ret"   -> Return(s.e, s.im)

Steps == Trace[i].steps

TraceNext ==
  \/ /\ k < Len(Steps)
     /\ UNCHANGED i
     /\ IF call # Idle /\ \E d \in D : Lacking(d)
        THEN (\E d \in D : DropLacking(d)) /\ UNCHANGED k
        ELSE Step(Steps[k + 1]) /\ k' = k + 1
  \/ k = Len(Steps) /\ UNCHANGED <<sbvars, i, k>>
=============================================================================
