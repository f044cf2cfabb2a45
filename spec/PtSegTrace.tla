----------------------------- MODULE PtSegTrace ------------------------------
(***************************************************************************)
(* Recorded runs of the tools:                                             *)
(*   k = "seg"   ptseg on the bytes b for offset off: output and status    *)
(*   k = "bad"   a run that must fail and show nothing                     *)
(*   k = "text"  a run that tells something else                           *)
(***************************************************************************)
EXTENDS PtSeg, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 64

VARIABLE i
Init == i \in 1..(IF Len(Trace) < Chains THEN Len(Trace) ELSE Chains)
Next == i + Chains <= Len(Trace) /\ i' = i + Chains

Conforms ==
  LET r == Trace[i]
  IN CASE r.k = "bad" -> r.rc # 0 /\ r.out = << >>
       [] r.k = "text" -> r.rc = 0 /\ r.out # << >>
       [] r.off > Len(r.b) -> r.rc # 0 /\ r.out = << >>
       [] OTHER -> r.rc = 0 /\ r.out = << SegText(r.b, r.off) >>
=============================================================================
