------------------------------ MODULE SbSession ------------------------------
(***************************************************************************)
(* A sideband session: decoders that each provide a sequence of records    *)
(* with a time, and apply them when the trace gets there.                  *)
(*                                                                         *)
(* The actions are the calls into the session, the session's calls of the  *)
(* decoders' functions, with their results, and the returns.               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES
  dec,    \* the decoders: state, time of the current record, primary,
          \* functions they lack
  call,   \* the call that is active and its arguments
  cur,    \* the decoder whose record is being dealt with, and how far
  seen,   \* the decoders that have been presented with the event
  img     \* the image of the trace decoder

sbvars == <<dec, call, cur, seen, img>>

Idle == [k |-> "idle"]
None == <<0, "">>

SbInit == dec = <<>> /\ call = Idle /\ cur = None /\ seen = {} /\ img = 0

D == DOMAIN dec
State(s) == {d \in D : dec[d].s = s}

(* A decoder that is dropped is not used again and waits for its end. *)
To(d, s) == [dec EXCEPT ![d].s = s]
Drop(d) == To(d, "dropped")
OrDrop(d, e, s) == IF e = "" THEN dec ELSE Drop(d)

Alloc(d, prim, lacks, e, fail) ==
  /\ call = Idle
  /\ d \notin D
  /\ IF fail THEN e = "nomem" /\ UNCHANGED dec
     ELSE /\ e = ""
          /\ dec' = [x \in D \cup {d} |-> IF x = d
                     THEN [s |-> "waiting", t |-> 0, prim |-> prim,
                           lacks |-> lacks]
                     ELSE dec[x]]
  /\ UNCHANGED <<call, cur, seen, img>>

Call(c) ==
  /\ call = Idle
  /\ call' = c
  /\ cur' = None /\ seen' = {}
  /\ UNCHANGED <<dec, img>>

(* A decoder without the function that is needed cannot go on: it is       *)
(* dropped at the time when it would have been called.                     *)
Due == {d \in State("active") : dec[d].t <= call.t}
Earliest(d) == d \in Due /\ \A x \in Due : dec[d].t <= dec[x].t

(* What is going to be called. *)
Wants(d, f) ==
  CASE call.k = "init" -> f = "fetch" /\ dec[d].s = "waiting"
    [] call.k = "event" /\ seen = {} ->
         IF f = "print" THEN call.st /\ cur = None /\ Earliest(d)
         ELSE IF f = "apply"
              THEN IF call.st THEN cur = <<d, "print">>
                   ELSE cur = None /\ Earliest(d)
              ELSE cur = <<d, "apply">>
    [] call.k = "dump" ->
         IF f = "print" THEN cur = None /\ Earliest(d)
         ELSE f = "fetch" /\ cur = <<d, "print">>
    [] OTHER -> FALSE

(* When all records that are due have been dealt with, all decoders see    *)
(* the event, in any order. *)
Presents(d) ==
  /\ call.k = "event" /\ ~call.bad
  /\ cur = None /\ Due = {}
  /\ dec[d].s \in {"active", "retired", "ended"} /\ d \notin seen

Lacking(d) ==
  \/ \E f \in dec[d].lacks : Wants(d, f)
  \/ "apply" \in dec[d].lacks /\ Presents(d)
DropLacking(d) ==
  /\ Lacking(d)
  /\ dec' = Drop(d) /\ cur' = None
  /\ UNCHANGED <<call, seen, img>>

Fetched(d, e, t) ==
  /\ Wants(d, "fetch") /\ "fetch" \notin dec[d].lacks
  /\ cur' = None
  /\ dec' = IF e = "" THEN [dec EXCEPT ![d].s = "active", ![d].t = t]
            ELSE IF e = "eos" /\ call.k = "event" THEN To(d, "retired")
            ELSE IF e = "eos" /\ call.k = "dump" THEN To(d, "ended")
            ELSE Drop(d)
  /\ UNCHANGED <<call, seen, img>>

Printed(d, e) ==
  /\ Wants(d, "print") /\ "print" \notin dec[d].lacks
  /\ cur' = IF e = "" THEN <<d, "print">> ELSE None
  /\ dec' = OrDrop(d, e, dec[d].s)
  /\ UNCHANGED <<call, seen, img>>

(* Only primary decoders see and may change the image. *)
Images(d, in, out) ==
  IF dec[d].prim THEN in = img /\ img' = out
  ELSE in = -1 /\ UNCHANGED img

Applied(d, e, in, out) ==
  /\ "apply" \notin dec[d].lacks
  /\ Images(d, in, out)
  /\ dec' = OrDrop(d, e, dec[d].s)
  /\ \/ /\ Wants(d, "apply")
        /\ cur' = IF e = "" THEN <<d, "apply">> ELSE None
        /\ UNCHANGED seen
     \/ /\ Presents(d)
        /\ seen' = seen \cup {d}
        /\ UNCHANGED cur
  /\ UNCHANGED call

(* A decoder is destroyed once: when it has been dropped or when the       *)
(* session is freed. *)
Destroyed(d) ==
  /\ dec[d].s # "dead"
  /\ dec[d].s \in {"dropped", "ended"} \/ call.k = "free"
  /\ dec' = To(d, "dead")
  /\ UNCHANGED <<call, cur, seen, img>>

Complete ==
  CASE call.k = "init" -> State("waiting") = {}
    [] call.k = "event" -> call.bad \/ (/\ cur = None /\ Due = {}
                                        /\ State("active") \subseteq seen
                                        /\ State("retired") \subseteq seen)
    [] call.k = "dump" -> cur = None /\ Due = {}
    [] call.k = "free" -> \A d \in D : dec[d].s = "dead"

Return(e, im) ==
  /\ call # Idle
  /\ Complete
  /\ e = IF call.k = "event" /\ call.bad THEN "invalid" ELSE ""
  /\ im = img
  /\ call' = Idle
  /\ UNCHANGED <<dec, cur, seen, img>>
=============================================================================
