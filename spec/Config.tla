------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Configurations: what a decoder makes of its user's structure, address   *)
(* filters, the errata of a processor and its textual form.                *)
(***************************************************************************)
EXTENDS Word

(***************************************************************************)
(* The user's structure u: u.size, its declared size in bytes, u.begin and *)
(* u.end, the trace buffer (-1: NULL), and u.in, its bytes.  u.min bytes   *)
(* are needed at least; the library knows u.sizeof bytes.                  *)
(***************************************************************************)
Usable(u) == u.size >= u.min /\ u.begin >= 0 /\ u.end >= 0
             /\ u.end >= u.begin

Least2(a, b) == IF a < b THEN a ELSE b
\* Byte k (1-based) of the configuration in force.
Byte(u, k) == IF k <= u.size THEN u.in[k] ELSE 0

\* The packet decoder and the encoder have no flags of their own: they keep
\* what they got.  The other layers hand back the packet decoder's.
KeepsFlags(u) == u.layer \in {"n", "p"}
HasBytes(u, got) ==
  /\ got.begin = u.begin /\ got.end = u.end
  /\ got.size = Least2(u.size, u.sizeof)
  /\ \A k \in (u.min + 1)..u.sizeof :
       (KeepsFlags(u) \/ k <= u.flags \/ k > u.flags_end)
       => got.b[k] = Byte(u, k)

(***************************************************************************)
(* Address filters: f is a sequence of [c, a, b], ranges [a, b] with c = 1 *)
(* for regions that are traced and 2 for regions in which tracing stops.   *)
(***************************************************************************)
In(f, a) == WLE(f.a, a) /\ WLE(a, f.b)
Traced(fs, a) ==
  /\ ~\E k \in DOMAIN fs : fs[k].c = 2 /\ In(fs[k], a)
  /\ (\E k \in DOMAIN fs : fs[k].c = 1)
     => \E k \in DOMAIN fs : fs[k].c = 1 /\ In(fs[k], a)

(***************************************************************************)
(* The errata documented for each processor (intel-pt.h, the specification *)
(* updates it names).                                                      *)
(***************************************************************************)
Intel == 1
Broadwell == {61, 71, 79, 86}
Skylake == {78, 94, 142, 158, 165, 166}
SkylakeServer == {85, 106, 108}
Sapphire == {143, 207, 173, 174}
Tigerlake == {102, 125, 126, 140, 141, 167, 168}
Alderlake == {151, 154, 186, 183, 191, 197, 198, 181, 170, 172, 189, 204}
Goldmont == {92, 95}
Goldmontplus == {122, 134, 150, 156, 182, 175, 221}

Errata(vendor, family, model) ==
  IF vendor # Intel THEN [ok |-> FALSE, s |-> {}]
  ELSE IF family = 6 THEN
    CASE model \in Broadwell -> [ok |-> TRUE, s |-> {"bdm70", "bdm64"}]
      [] model \in Skylake ->
           [ok |-> TRUE, s |-> {"bdm70", "skd007", "skd022", "skd010",
                                "skl014", "skl168"}]
      [] model \in SkylakeServer ->
           [ok |-> TRUE, s |-> {"bdm70", "skl014", "skd022", "skz84"}]
      [] model \in Sapphire ->
           [ok |-> TRUE, s |-> {"bdm70", "skd022", "skz84"}]
      [] model \in Tigerlake ->
           [ok |-> TRUE, s |-> {"bdm70", "skl014", "skd022"}]
      [] model \in Alderlake ->
           [ok |-> TRUE, s |-> {"bdm70", "skd022", "apl11"}]
      [] model \in Goldmont -> [ok |-> TRUE, s |-> {"apl12", "apl11"}]
      [] model \in Goldmontplus -> [ok |-> TRUE, s |-> {"apl11"}]
      [] OTHER -> [ok |-> FALSE, s |-> {}]
  ELSE IF family = 19 /\ model = 1
       THEN [ok |-> TRUE, s |-> {"bdm70", "skd022", "skz84"}]
  ELSE [ok |-> FALSE, s |-> {}]

(***************************************************************************)
(* "family/model[/stepping]", numbers in decimal, octal or hexadecimal.    *)
(* s: the characters' codes.  [ok, f, m, s].                               *)
(***************************************************************************)
Digit(ch) == IF ch \in 48..57 THEN ch - 48
             ELSE IF ch \in 97..102 THEN ch - 87
             ELSE IF ch \in 65..70 THEN ch - 55 ELSE 99
RECURSIVE Digits(_, _, _)
\* Saturates.
Digits(s, base, v) ==
  IF s = << >> THEN v
  ELSE IF Digit(s[1]) >= base THEN -1
  ELSE Digits(Tail(s), base, IF v > 1000000 THEN v ELSE v * base + Digit(s[1]))
Number(s) ==
  IF s = << >> THEN -1
  ELSE IF Len(s) > 2 /\ s[1] = 48 /\ s[2] \in {120, 88}
       THEN Digits(SubSeq(s, 3, Len(s)), 16, 0)
  ELSE IF s[1] = 48 THEN Digits(s, 8, 0)
  ELSE Digits(s, 10, 0)

RECURSIVE Split(_, _)
Split(s, cur) ==
  IF s = << >> THEN <<cur>>
  ELSE IF s[1] = 47 THEN <<cur>> \o Split(Tail(s), << >>)
  ELSE Split(Tail(s), Append(cur, s[1]))

Parse(s) ==
  LET p == Split(s, << >>)
      n == [k \in DOMAIN p |-> Number(p[k])]
      bad == [ok |-> FALSE, f |-> 0, m |-> 0, s |-> 0]
      st == IF Len(p) = 3 THEN n[3] ELSE 0
  IN IF Len(p) \notin {2, 3} THEN bad
     ELSE IF n[1] \notin 0..65535 \/ n[2] \notin 0..255 \/ st \notin 0..255
     THEN bad
     ELSE [ok |-> TRUE, f |-> n[1], m |-> n[2], s |-> st]
=============================================================================
