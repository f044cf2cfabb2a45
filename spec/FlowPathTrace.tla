---------------------------- MODULE FlowPathTrace ----------------------------
(* Recorded decodes against FlowPath: one line is one case, [mem, ev]. *)
EXTENDS FlowPath, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 64
VARIABLES i, k, st
Least(a, b) == IF a < b THEN a ELSE b

TraceInit == i \in 1..Least(Chains, Len(Trace)) /\ k = 0 /\ st = Fresh
TraceNext ==
  IF k < Len(Trace[i].ev)
  THEN /\ k' = k + 1 /\ i' = i
       /\ st' \in Report(Trace[i].mem, st, Trace[i].ev[k + 1])
  ELSE IF i + Chains <= Len(Trace)
  THEN i' = i + Chains /\ k' = 0 /\ st' = Fresh
  ELSE UNCHANGED <<i, k, st>>
=============================================================================
