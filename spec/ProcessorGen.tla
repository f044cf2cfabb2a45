---------------------------- MODULE ProcessorGen ----------------------------
(***************************************************************************)
(* Random behaviours of the processor, printed for replay.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

VARIABLES p, s, n

Range(f) == {f[k] : k \in DOMAIN f}
Raw == ndJsonDeserialize(IOEnv.PROGS)
Programs == [k \in DOMAIN Raw |->
              [Raw[k] EXCEPT !.entry = Range(@), !.exits = Range(@),
                      !.flags.never = Range(@), !.flags.more = Range(@)]]
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

INSTANCE Processor WITH P <- Programs, Pick <- Pick

NextGen ==
  /\ n # -1
  /\ Next
  /\ n' = -1 =>
       PrintT("@@" \o ToJson([p |-> p, tr |-> s'.tr, out |-> s'.out,
                              end |-> s'.res, at |-> s'.at,
                              sp |-> s'.sp, vm |-> s'.vm]))
=============================================================================
