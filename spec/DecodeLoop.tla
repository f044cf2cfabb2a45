----------------------------- MODULE DecodeLoop -----------------------------
(***************************************************************************)
(* The documented decode loop of a user of the instruction flow or block   *)
(* decoder, and what the decoder owes it so that the loop ends:            *)
(*                                                                         *)
(*   loop   synchronize forward; stop on end of stream, go on after        *)
(*          another error if that was not found at the same place            *)
(*          repeat: fetch all pending events, next instruction or block    *)
(*          until an error                                                 *)
(*                                                                         *)
(* The decoder owes that synchronization forward moves forward, that there *)
(* is an error after finitely many calls, and that it knows where it is:   *)
(* positions are inside of the trace.                                      *)
(*                                                                         *)
(* N is the size of the trace, Steps a bound on the calls between two      *)
(* errors.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS N, Steps

VARIABLES pc,    \* "sync", "decode", "done"
          at,    \* the last synchronization point, -1 before the first
          left,  \* how many calls may succeed before there is an error
          seen   \* where synchronization failed, -1 if it did not

vars == <<pc, at, left, seen>>

Init == pc = "sync" /\ at = -1 /\ left = 0 /\ seen = -1

\* synchronization in a trace of size n succeeds, at a later point, and c
\* calls succeed before one fails
Synced(off, n, c) ==
  /\ pc = "sync" /\ off > at /\ off < n
  /\ pc' = "decode" /\ at' = off /\ left' = c /\ UNCHANGED seen

\* there is none
NoSync == pc = "sync" /\ pc' = "done" /\ UNCHANGED <<at, left, seen>>

\* there is one that cannot be used, which was found at off: the user goes
\* on if that is further than the last one
SyncFail(off, n) ==
  /\ pc = "sync" /\ off <= n
  /\ IF off > seen THEN pc' = "sync" /\ seen' = off
                   ELSE pc' = "done" /\ UNCHANGED seen
  /\ UNCHANGED <<at, left>>

\* a call succeeds
Call == /\ pc = "decode" /\ left > 0
        /\ left' = left - 1 /\ UNCHANGED <<pc, at, seen>>

\* a call fails; the decoder is still where it was synchronized
Fail(err) ==
  /\ pc = "decode"
  /\ err \notin {"", "nosync"}
  /\ pc' = "sync" /\ left' = 0 /\ UNCHANGED <<at, seen>>

Errors == {"eos", "other"}
Next == \/ \E off \in 0..N-1, c \in 0..Steps : Synced(off, N, c)
        \/ \E off \in 0..N : SyncFail(off, N)
        \/ NoSync \/ Call \/ \E e \in Errors : Fail(e)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
TypeOK == /\ pc \in {"sync", "decode", "done"} /\ at \in -1..N-1
          /\ left \in 0..Steps /\ seen \in -1..N
Ends == <>(pc = "done")
=============================================================================
