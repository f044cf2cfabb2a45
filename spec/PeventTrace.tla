----------------------------- MODULE PeventTrace -----------------------------
(* Every recorded call of the perf event library is one Pevent allows. *)
EXTENDS Pevent, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i \in 1..Len(Trace)
Next == FALSE /\ UNCHANGED i

SeqSet(s) == {s[k] : k \in DOMAIN s}
Cfg(x) == [st |-> x.st, ids |-> x.ids, has |-> SeqSet(x.has),
           shift |-> x.shift, mult |-> x.mult, zero |-> x.zero]

\* The result of a read of bs is r.
ReadIs(c, bs, r) ==
  LET x == Read(c, bs)
  IN IF x.errs # {} THEN r.e \in x.errs
     ELSE r.e = "" /\ r.n = x.n /\ r.ev = x.ev

WriteIs(c, ev, room, r) ==
  LET errs == WriteErrs(c, ev, room)
      bs == Encode(ev)
      free == Unused(ev)
  IN IF errs # {} THEN r.e \in errs
     ELSE /\ r.e = "" /\ r.n = Len(bs) /\ Len(r.bs) = r.n
          /\ \A k \in DOMAIN bs : k \in free \/ r.bs[k] = bs[k]

\* Where sample types depend on the identifier, all have to have one.
Unambiguous(c, ev) == "ids" \in c.has => IdentOf(ev) # <<>>

Conforms ==
  LET s == Trace[i]
      c == Cfg(s.cfg)
  IN CASE s.k = "w" ->
            /\ WriteIs(c, s.ev, s.room, s.w)
            /\ s.w.e = "" =>
                 /\ ReadIs(c, s.w.bs, s.r)
                 /\ s.r.e = "" /\ Unambiguous(c, s.ev) =>
                      /\ s.r.n = s.w.n
                      /\ [s.r.ev EXCEPT !.tsc = W0] = s.ev
       [] s.k = "r" -> ReadIs(c, s.bs, s.r)
       [] s.k = "t" -> LET x == TimeToTsc(c, s.x)
                       IN s.e = x.e /\ (x.e = "" => s.v = x.v)
       [] s.k = "f" -> LET x == TscToTime(c, s.x)
                       IN s.e = x.e /\ (x.e = "" => s.v = x.v)
=============================================================================
