------------------------------ MODULE LoopTrace ------------------------------
(***************************************************************************)
(* Recorded decode loops of the flow decoders are behaviours of            *)
(* DecodeLoop.  A line is one loop:                                        *)
(*   n    the size of the trace                                            *)
(*   max  the bound on successful calls in a row                           *)
(*   ev   [t |-> "sync", e |-> error, o |-> offset,                        *)
(*                       c |-> successful calls that follow]               *)
(*        [t |-> "fail", e |-> error, ok |-> the position is inside]       *)
(*        [t |-> "stuck"]: the driver gave up                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 64

VARIABLES i, k, pc, at, left, seen

Unused == 0
INSTANCE DecodeLoop WITH N <- Unused, Steps <- Unused

Min(a, b) == IF a < b THEN a ELSE b

TraceInit == i \in 1..Min(Chains, Len(Trace)) /\ k = 0 /\ Init

Ev == Trace[i].ev[k + 1]
Step ==
  CASE Ev.t = "sync" /\ Ev.e = "" ->
         Ev.c <= Trace[i].max /\ Synced(Ev.o, Trace[i].n, Ev.c)
    [] Ev.t = "sync" /\ Ev.e = "eos" -> NoSync
    [] Ev.t = "sync" -> SyncFail(Ev.o, Trace[i].n)
    [] Ev.t = "fail" -> Ev.ok /\ Fail(Ev.e)
    [] OTHER -> FALSE

TraceNext ==
  IF k < Len(Trace[i].ev)
  THEN k' = k + 1 /\ i' = i /\ Step
  ELSE /\ pc = "done"
       /\ IF i + Chains <= Len(Trace)
          THEN /\ i' = i + Chains /\ k' = 0
               /\ pc' = "sync" /\ at' = -1 /\ left' = 0
               /\ seen' = -1
          ELSE UNCHANGED <<i, k, pc, at, left, seen>>
=============================================================================
