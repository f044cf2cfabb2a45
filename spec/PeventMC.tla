------------------------------ MODULE PeventMC ------------------------------
(* The conversions of Pevent invert each other up to their rounding. *)
EXTENDS Pevent, TLC

VARIABLES t, c

RW == WTrunc(W8(LAMBDA k : RandomElement(0..255)), RandomElement(0..8))
RC == [st |-> W0, ids |-> <<>>, has |-> {"time"},
       shift |-> RandomElement({0, 1, 7, 10, 16, 31, 32}),
       mult |-> WTrunc(RW, 4), zero |-> RW]
Init == t = W0 /\ c = RC
Next == t' = RW /\ c' = RC

\* Steps of one clock in one step of the other, rounded up.
Step(a, b) == WAdd(WDiv(a, b), WInt(1))
Near(a, b, d) == WLE(a, b) /\ WLE(WSub(b, a), d)

Inverse ==
  LET x == TscToTime(c, t)
      y == TimeToTsc(c, x.v)
      u == TimeToTsc(c, t)
      v == TscToTime(c, u.v)
      rel == WSub(t, c.zero)
  IN c.mult # W0 =>
     /\ WFits(WShr(t, c.shift), 32) /\ x.v # W0 =>
          Near(y.v, t, Step(WPow2(c.shift), c.mult))
     /\ t # W0 /\ WFits(WDiv(rel, c.mult), 31) =>
          Near(W0, WSub(t, v.v), Step(c.mult, WPow2(c.shift)))
=============================================================================
