---------------------------- MODULE ConfigTrace ----------------------------
(* Recorded calls (harness/cfg.c) against Config. *)
EXTENDS Config, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i \in 1..(IF Len(Trace) < 64 THEN Len(Trace) ELSE 64)
Next == i + 64 <= Len(Trace) /\ i' = i + 64
Range(s) == {s[k] : k \in DOMAIN s}

Conforms ==
  LET r == Trace[i] IN
  CASE r.k = "E" ->
         LET x == Errata(r.vendor, r.family, r.model) IN
         /\ r.e = (IF x.ok THEN "" ELSE "bad_cpu")
         /\ Range(r.set) = x.s /\ r.rest = 0
    [] r.k = "P" ->
         LET x == Parse(r.s) IN
         IF x.ok THEN /\ r.e = "" /\ r.vendor = Intel /\ r.family = x.f
                      /\ r.model = x.m /\ r.stepping = x.s
         ELSE r.e = "invalid"
    [] r.k = "F" -> r.r = (IF Traced(r.f, r.a) THEN 1 ELSE 0)
    [] r.k = "C" ->
         IF Usable(r) THEN r.ok = 1 /\ HasBytes(r, r.got) /\ r.later = r.got
         ELSE r.ok = 0
=============================================================================
