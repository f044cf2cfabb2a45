---------------------------- MODULE PacketsTrace ----------------------------
(***************************************************************************)
(* Every recorded call of the packet encoder and decoder is the one the    *)
(* packet format allows.  One recorded case per line; the cases are spread *)
(* over chains so that TLC's workers check them in parallel.               *)
(***************************************************************************)
EXTENDS Packets, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 64

VARIABLE i

Min(a, b) == IF a < b THEN a ELSE b
Init == i \in 1..Min(Chains, Len(Trace))
Next == i + Chains <= Len(Trace) /\ i' = i + Chains

\* The offset counters below fit TLC integers: buffers are small.
DecOk(c) ==
  LET b == SubSeq(c.buf, c.off + 1, Len(c.buf))
      x == Decode(b, c.cb)
      cbname == "callback"
      d == c.dec
      asked == AsksCallback(b) /\ c.cb # NoCallback
  IN IF c.off > Len(c.buf)
     THEN d.sync = "eos" /\ d.err = "nosync" /\ d.n = 0
     ELSE /\ d.sync = ""
          /\ IF x.err = "callback" THEN d.st = c.cb
             ELSE d.err = x.err
          /\ d.again = d.err
          /\ d.n = x.n
          /\ d.pkt = x.pkt
          /\ d.after = c.off + x.n
          /\ d.so = c.off
          /\ d.cbn = IF asked THEN IF x.err = "" THEN 1 ELSE 3 ELSE 0
          /\ d.cbo = IF asked THEN c.off ELSE 0

EncOk(c) ==
  LET e == Enc(c.in)
      fits == Len(e.b) <= c.room
      d == c.dec
  IN /\ c.dirty = 0
     /\ IF e.err = "" /\ fits
        THEN /\ c.err = ""
             /\ c.bytes = e.b
             /\ c.n = Len(e.b)
             /\ c.moved = c.n
             /\ d.err = "" /\ d.n = c.n /\ d.after = c.n
             /\ d.pkt = Norm(c.in)
             \* the specification itself round-trips
             /\ Decode(e.b, NoCallback) = Ok(Len(e.b), Norm(c.in))
        ELSE /\ c.n = 0 /\ c.moved = 0
             /\ c.err = (IF e.err = "" THEN "eos" ELSE e.err)
                \/ (e.err # "" /\ c.err = "eos" /\ c.room < 16)

Good(c) == IF c.k = "E" THEN EncOk(c) ELSE DecOk(c)
Conforms == Good(Trace[i])
=============================================================================
