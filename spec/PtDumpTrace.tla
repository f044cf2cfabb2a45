----------------------------- MODULE PtDumpTrace -----------------------------
(***************************************************************************)
(* Recorded runs of ptdump are behaviours of PtDump: i is the run, s the   *)
(* dumper's state, k the number of lines that have been explained.         *)
(*                                                                         *)
(* A run is                                                                *)
(*   b      the bytes of the trace                                         *)
(*   o      the options                                                    *)
(*   cpu    family and model, empty if none was given                      *)
(*   mtc, nom, eax, ebx                                                    *)
(*   out    the lines of its output, rc its exit status                    *)
(***************************************************************************)
EXTENDS PtDump, Json, IOUtils

X == INSTANCE Config

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 64

VARIABLES i, s, k

Errata(r) == IF r.cpu = << >> THEN [ok |-> TRUE, s |-> {}]
             ELSE X!Errata(1, r.cpu[1], r.cpu[2])
Cfg(r) == LET e == Errata(r).s
          IN [buf |-> r.b, cb |-> NoCallback, mtc |-> r.mtc, nom |-> r.nom,
              eax |-> WBytes(r.eax), ebx |-> WBytes(r.ebx),
              skd007 |-> "skd007" \in e, skz84 |-> "skz84" \in e,
              skl168 |-> "skl168" \in e]

\* What comes before the trace is read.
Head0(r) == IF Errata(r).ok THEN << >>
            ELSE << Diag(0, "failed to determine errata", "bad_cpu") >>
Begins(r) == /\ Head0(r) = SubSeq(r.out, 1, Len(Head0(r)))
             /\ r.rc = 0

Is(line, l) ==
  IF l.v = Unjudged THEN SubSeq(line, 1, Len(l.h)) = l.h
  ELSE \/ line = l.h \o l.v
       \* the last column is 16 characters wide
       \/ Len(l.v) > 16 /\ line = l.h \o SubSeq(l.v, 1, 16)

Enter(j) == LET r == Trace[j]
            IN [s |-> Start(Cfg(r), r.o), k |-> Len(Head0(r))]

TraceInit == /\ i \in 1..(IF Len(Trace) < Chains THEN Len(Trace) ELSE Chains)
             /\ s = Enter(i).s
             /\ k = Enter(i).k

Packet == /\ ~s.done
          /\ k # 0 \/ Begins(Trace[i])
          /\ LET r == Trace[i]
                 x == Step(Cfg(r), r.o, s)
             IN /\ k + Len(x.l) <= Len(r.out)
                /\ \A j \in 1..Len(x.l) : Is(r.out[k + j], x.l[j])
                /\ k' = k + Len(x.l)
                /\ s' = x.s
          /\ UNCHANGED i

End == /\ s.done /\ k = Len(Trace[i].out) /\ Begins(Trace[i])
       /\ IF i + Chains <= Len(Trace)
          THEN /\ i' = i + Chains /\ s' = Enter(i').s /\ k' = Enter(i').k
          ELSE UNCHANGED << i, s, k >>

TraceNext == Packet \/ End

\* Nothing is skipped: the dumper only ever moves on.
Moves == [][i' = i => s'.done \/ s'.pos > s.pos \/ UNCHANGED s]_<<i, s, k>>
=============================================================================
