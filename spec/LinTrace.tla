------------------------------- MODULE LinTrace -------------------------------
(***************************************************************************)
(* Concurrent histories of section caches are linearizable: there is an    *)
(* order of the operations, in keeping with which of them returned before  *)
(* which others were called, in which they are a behaviour of ImageOps.    *)
(*                                                                         *)
(* A line is a history as in ImageTrace; operations also have              *)
(*   inv, ret  the points in time of call and return                         *)
(*   q     nothing else was going on: m was measured                       *)
(* and the line has stuck, whether threads were deadlocked at the end.     *)
(***************************************************************************)
EXTENDS ImageOps, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE i

(* todo: the operations still to be put in order *)
RECURSIVE Lin(_, _, _)
Lin(st, ops, todo) ==
  \/ todo = {}
  \/ \E j \in todo :
       /\ \A l \in todo : ~(ops[l].ret < ops[j].inv)
       /\ \E x \in Results(st, ops[j]) :
            /\ ops[j].q => Within(x, ops[j].m)
            /\ Lin(x, ops, todo \ {j})

Linearizable(t) == Lin(Start(t.sizes), t.ops, 1..Len(t.ops))

Conforms == LET t == Trace[i] IN ~t.stuck /\ t.bal = Released /\ Linearizable(t)

Init == i \in 1..Len(Trace)
Next == FALSE /\ UNCHANGED i
=============================================================================
