-------------------------------- MODULE Sync --------------------------------
(***************************************************************************)
(* Synchronization points and the packet decoder's position.               *)
(*                                                                         *)
(* A configuration record c has the trace buffer c.buf (a sequence of      *)
(* bytes) and c.cb (the unknown-packet callback's answer, see Packets).    *)
(***************************************************************************)
EXTENDS Packets

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Least(a, b) == IF a < b THEN a ELSE b

HasPsb(b, s) == /\ s >= 0 /\ s + 16 <= Len(b)
                /\ \A k \in 0..7 : b[s + 2*k + 1] = 2 /\ b[s + 2*k + 2] = 130

\* Offsets at which there is a synchronization point.  Of directly adjacent
\* ones (which no processor generates) only the last counts.
SyncPoints(b) ==
  {s \in 0..(Len(b) - 16) :
     /\ b[s + 1] = 2 /\ b[s + 2] = 130
     /\ HasPsb(b, s)
     /\ ~(s + 18 <= Len(b) /\ b[s + 17] = 2 /\ b[s + 18] = 130)}

\* p: the packet decoder's position (-1: not synchronized), s: its sync point.
\* The next synchronization point; -1 if there is none.
Forward(b, p, s) ==
  LET at == IF p < 0 THEN 0 ELSE IF p = s THEN p + 16 ELSE p
      from == at - Least(15, at)
      cand == {x \in SyncPoints(b) : x >= from}
  IN IF at > Len(b) \/ cand = {} THEN -1 ELSE MinOf(cand)

\* The possible answers: a synchronization point that only partly precedes
\* the position may or may not be found.
Backward(b, p) ==
  LET at == IF p < 0 THEN Len(b) ELSE p
      full == {x \in SyncPoints(b) : x + 16 <= at}
      part == {x \in SyncPoints(b) : x < at /\ x + 16 > at}
  IN {IF full = {} THEN -1 ELSE MaxOf(full)} \cup part

(***************************************************************************)
(* The packet at offset p, its size x.s and how far to move x.n.  No       *)
(* packet that is known has more than 16 bytes.                            *)
(*                                                                         *)
(* Erratum SKD007: a CYC packet that was cut off by an overflow; what      *)
(* looks like its second byte and another CYC is the OVF.                  *)
(* Erratum SKZ84: a TMA whose reserved bits are set is corrupt and has one *)
(* byte too many.                                                          *)
(***************************************************************************)
Skd007(b) == /\ Len(b) >= 3 /\ b[1] % 8 = 7 /\ b[2] = 2 /\ b[3] = 243
Window(cb) == IF cb > 16 THEN cb ELSE 16
PktAt(c, p) ==
  LET b == SubSeq(c.buf, p + 1, Least(p + Window(c.cb), Len(c.buf)))
      x == Decode(b, c.cb)
      r(e, n, s, k) == [err |-> e, n |-> n, s |-> s, pkt |-> k]
  IN IF c.skd007 /\ Skd007(b) THEN r("", 3, 2, [t |-> "ovf"])
     ELSE IF c.skz84 /\ x.err = "bad_packet" /\ Len(b) >= 2
             /\ b[1] = 2 /\ b[2] = 115
     THEN IF Len(b) < 8 THEN r("eos", 0, 0, x.pkt)
          ELSE r("", 8, 8, [t |-> "invalid"])
     ELSE r(x.err, x.n, x.n, x.pkt)
=============================================================================
