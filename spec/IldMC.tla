------------------------------- MODULE IldMC -------------------------------
(***************************************************************************)
(* Instruction formats are prefix free: the length and kind of a defined   *)
(* instruction depend on its own bytes only, and it is not empty.  Checked *)
(* for every opcode of every map with every ModRM byte of a set, in every  *)
(* mode, under every combination of up to two prefixes.                    *)
(***************************************************************************)
EXTENDS Ild, TLC

CONSTANTS ModRMs, Sibs
Prefixes == {<< >>} \cup {<<x>> : x \in {102, 103, 243, 72}} \cup
            {<<102, 103>>, <<242, 102>>, <<102, 72>>, <<103, 68>>, <<72, 102>>}
Escapes == {<< >>, <<15>>, <<15, 56>>, <<15, 58>>, <<197, 250>>,
            <<196, 226, 121>>, <<196, 227, 249>>, <<98, 244, 125, 8>>,
            <<98, 241, 124, 8>>, <<213, 8>>, <<213, 128>>}

VARIABLES m, p, e, o
Init == m \in {16, 32, 64} /\ p \in Prefixes /\ e \in Escapes /\ o = 0
Next == o < 255 /\ o' = o + 1 /\ UNCHANGED <<m, p, e>>

\* The bytes with others in place of those after the first n.
Fill(n, v) == [k \in 1..n |-> v]
Good(b) ==
  LET q == Parts(b, m)
  IN Defined(q) /\ q.len <= Len(b) =>
       /\ q.len >= 1
       /\ \A v \in {0, 102, 255} :
            LET r == Parts(SubSeq(b, 1, q.len) \o Fill(Len(b) - q.len, v), m)
            IN r = q /\ Defined(r) /\ KindOf(r) = KindOf(q)
       /\ q.br > 0 => KindOf(q).cls \in {"call", "jump", "cond_jump"}
                      \/ (q.f.map = 0 /\ q.f.op = 199)
       \* what consumes trace is known to do so
       /\ KindOf(q).cls # "other" => Simple(q.f) /\ q.f.map \in {0, 1}
PrefixFree == \A x \in ModRMs, s \in Sibs :
                Good(p \o e \o <<o, x, s>> \o Fill(10, 165))
=============================================================================
