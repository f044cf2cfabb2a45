------------------------------ MODULE ImageTrace ------------------------------
(***************************************************************************)
(* Recorded histories of images and section caches are behaviours of       *)
(* ImageOps.  A line is a history:                                         *)
(*   sizes  of the files                                                   *)
(*   ops    the operations in order, with what they returned and m, the    *)
(*          bytes mapped and cached afterwards                             *)
(*   bal    what was left when everything had been freed                   *)
(***************************************************************************)
EXTENDS ImageOps, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 64

VARIABLES i, k,     \* the line, the operations taken
          st

TraceInit ==
  /\ i \in 1..Min(Chains, Len(Trace)) /\ k = 0
  /\ st = Start(Trace[i].sizes)

Op == Trace[i].ops[k + 1]

TraceNext ==
  IF k < Len(Trace[i].ops)
  THEN /\ k' = k + 1 /\ i' = i
       /\ st' \in {x \in Results(st, Op) : Within(x, Op.m)}
  ELSE /\ Trace[i].bal = Released
       /\ IF i + Chains <= Len(Trace)
          THEN i' = i + Chains /\ k' = 0 /\ st' = Start(Trace[i'].sizes)
          ELSE UNCHANGED <<i, k, st>>
=============================================================================
