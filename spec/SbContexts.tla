----------------------------- MODULE SbContexts -----------------------------
(***************************************************************************)
(* The process contexts of a sideband session.                             *)
(*                                                                         *)
(* There is at most one context per process, found by its pid.  It is      *)
(* created with the memory that the kernel has at that time, and changes   *)
(* independently afterwards.  The session holds a reference; a context     *)
(* stays usable until the session and all users put theirs, whether it can *)
(* still be found or not.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Slots,      \* units of memory: 0..Slots-1
          Units,      \* units per file
          MaxUsers    \* references that can be counted

VARIABLES
  ctx,    \* the contexts that were ever created: pid, listed, own (references
          \* of users), mem
  kern,   \* the kernel's memory
  note,   \* the notifier: "none", "ok", "err"
  open    \* the session exists
cvars == <<ctx, kern, note, open>>

Empty == [s \in 0..(Slots - 1) |-> 0]
CInit == ctx = <<>> /\ kern = Empty /\ note = "none" /\ open = TRUE

H == DOMAIN ctx
Listed == {h \in H : ctx[h].listed}
Users(h) == ctx[h].own + (IF ctx[h].listed THEN 1 ELSE 0)
Live == {h \in H : Users(h) > 0}
Of(p) == {h \in Listed : ctx[h].pid = p}

\* What unit u of file f contains, and a mapping of n units from o at s.
Content(f, u) == 16 * f + u + 1
Mapped(mem, f, o, n, s) ==
  [x \in DOMAIN mem |-> IF x >= s /\ x < s + n /\ o + (x - s) < Units
                        THEN Content(f, o + (x - s)) ELSE mem[x]]

Same == UNCHANGED cvars

\* Results: e, "" or an error; c, a context, 0 for none.
Find(p, e, c) ==
  /\ e = "" /\ IF Of(p) = {} THEN c = 0 ELSE c \in Of(p)
  /\ Same
Get(p, oom, e, c) ==
  IF Of(p) # {} THEN e = "" /\ c \in Of(p) /\ Same
  ELSE IF e # "" THEN oom /\ e = "nomem" /\ Same
  ELSE /\ c = Len(ctx) + 1
       /\ ctx' = Append(ctx, [pid |-> p, listed |-> TRUE, own |-> 0,
                              mem |-> kern])
       /\ UNCHANGED <<kern, note, open>>
Remove(h, e) ==
  IF h \in Listed THEN /\ e = ""
                       /\ ctx' = [ctx EXCEPT ![h].listed = FALSE]
                       /\ UNCHANGED <<kern, note, open>>
  ELSE e # "" /\ Same
\* n references; done of them were granted.
Ref(h, n, e, done) ==
  LET room == MaxUsers - Users(h)
  IN /\ h \in Live
     /\ done = (IF n <= room THEN n ELSE room)
     /\ e = (IF n <= room THEN "" ELSE "overflow")
     /\ ctx' = [ctx EXCEPT ![h].own = @ + done]
     /\ UNCHANGED <<kern, note, open>>
Put(h, n, e) ==
  /\ ctx[h].own >= n /\ e = ""
  /\ ctx' = [ctx EXCEPT ![h].own = @ - n]
  /\ UNCHANGED <<kern, note, open>>
\* f = 0: there is no such file.
Mmap(h, f, o, n, s, e) ==
  IF f = 0 \/ o >= Units \/ n = 0 THEN e # "" /\ Same
  ELSE /\ e = ""
       /\ IF h = 0 THEN kern' = Mapped(kern, f, o, n, s) /\ UNCHANGED ctx
          ELSE ctx' = [ctx EXCEPT ![h].mem = Mapped(@, f, o, n, s)]
               /\ UNCHANGED kern
       /\ UNCHANGED <<note, open>>
Notify(k, old) == /\ old = note /\ note' = k
                  /\ UNCHANGED <<ctx, kern, open>>
\* im: the image afterwards, told: the context that the notifier was given.
Switch(h, e, im, was, told) ==
  /\ told = (IF note = "none" THEN 0 ELSE h)
  /\ IF note = "err" THEN e = "bad_context" /\ im = was
     ELSE e = "" /\ im = h
  /\ Same
Free == /\ open' = FALSE
        /\ ctx' = [h \in H |-> [ctx[h] EXCEPT !.listed = FALSE]]
        /\ UNCHANGED <<kern, note>>

-----------------------------------------------------------------------------
CNext ==
  \/ open /\ \E p \in 1..2 : \/ \E h \in 0..Len(ctx) : Find(p, "", h)
                             \/ \E o \in BOOLEAN, h \in 0..(Len(ctx) + 1),
                                   e \in {"", "nomem"} : Get(p, o, e, h)
  \/ open /\ \E h \in H, e \in {"", "nosync"} : Remove(h, e)
  \/ \E h \in Live, n \in 1..2, e \in {"", "overflow"}, d \in 0..2 :
        Ref(h, n, e, d)
  \/ \E h \in Live, n \in 1..2 : Put(h, n, "")
  \/ open /\ \E h \in Live \cup {0}, o \in 0..Units, s \in 0..(Slots - 1),
                e \in {"", "invalid"} : Mmap(h, 1, o, 2, s, e)
  \/ open /\ \E k \in {"none", "ok", "err"} : Notify(k, note)
  \/ open /\ Free

OnePerPid == \A g, h \in Listed : ctx[g].pid = ctx[h].pid => g = h
Counted == \A h \in H : Users(h) <= MaxUsers
Ended == ~open => \A h \in H : ~ctx[h].listed
Bound == Len(ctx) <= 2
=============================================================================
