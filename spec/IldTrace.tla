------------------------------ MODULE IldTrace ------------------------------
(***************************************************************************)
(* Every recorded decode of an instruction is the one the architecture's   *)
(* instruction formats allow.  One line holds a group of cases:            *)
(*   m    execution mode                                                   *)
(*   b    the bytes                                                        *)
(*   n    how many of them were available                                  *)
(*   r    0: decoded from a buffer; otherwise from an image in pieces, the *)
(*        first of them r bytes long                                       *)
(*   e    the error, s: the size, c: the class, p: the properties that     *)
(*        hold, d: the displacement of a direct branch, t: truncated       *)
(*   a    the address, x: the error of asking for the next address,        *)
(*        y: that address                                                  *)
(*   w    whether to judge branches that wrap at 4G                        *)
(***************************************************************************)
EXTENDS Ild, Word, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 64

VARIABLE i
Init == i \in 1..(IF Len(Trace) < Chains THEN Len(Trace) ELSE Chains)
Next == i + Chains <= Len(Trace) /\ i' = i + Chains

\* The properties that hold, as the driver names them.
Bit(x, n) == IF x THEN n ELSE 0
Mask(p) == Bit(p.branch, 1) + Bit(p.far, 2) + Bit(p.cr3, 4) + Bit(p.pip, 8) +
           Bit(p.vmcs, 16) + Bit(p.ptw, 32) + Bit(p.iret, 64) +
           Bit(p.vmentry, 128) + Bit(p.uiret, 256)

Disp(c, q) == WSext(WBytes(SubSeq(c.b, q.at, q.at + q.br - 1)), q.br)

\* Linear addresses have 32 bits outside of 64-bit mode.
Linear(a, m) == IF m = 64 THEN a ELSE WTrunc(a, 4)
NextOk(c, a) == c.y = Linear(a, c.m) \/ (~c.w /\ a # Linear(a, c.m))

KindOk(c, q, k) ==
  /\ c.c = k.cls
  /\ c.p = Mask(Props(k))
  /\ LET direct == k.cls \in {"call", "jump", "cond_jump"} /\ q.br > 0
         next == WAdd(c.a, WInt(q.len))
     IN /\ c.d = IF direct THEN Disp(c, q) ELSE << >>
        /\ CASE k.cls \in {"other", "ptwrite"} ->
                  c.x = "" /\ NextOk(c, next)
             [] direct /\ k.cls # "cond_jump" ->
                  \* 16-bit code wraps at the end of its segment, which the
                  \* trace does not tell
                  /\ c.x = ""
                  /\ (c.m = 64 \/ OpSize(q.f) # 16) =>
                       NextOk(c, WAdd(next, Disp(c, q)))
             [] OTHER -> c.x = "bad_query"

CaseOk(c) ==
  LET q == Parts(c.b, c.m)
  IN IF ~Defined(q)
     THEN c.e # "" \/ c.s <= c.n
     ELSE IF q.len > c.n \/ q.len > 15
     THEN IF c.r = 0 THEN c.e = "bad_insn" ELSE c.e \in {"bad_insn", "nomap"}
     ELSE /\ c.e = ""
          /\ c.s = q.len
          /\ c.t = (c.r # 0 /\ c.r < q.len)
          /\ KindKnown(q) => KindOk(c, q, KindOf(q))

Conforms == \A k \in 1..Len(Trace[i].g) : CaseOk(Trace[i].g[k])
=============================================================================
