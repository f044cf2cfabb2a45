------------------------------- MODULE PtDump -------------------------------
(***************************************************************************)
(* The packet dumper: the text that ptdump prints for a trace.             *)
(*                                                                         *)
(* The configuration c is the packet decoder's (see Sync) and the time     *)
(* calibration's (see TimeCal).  The options o say what to show and what   *)
(* to keep track of.  The state s is a record                              *)
(*   pos, sync       the packet decoder's position and sync point          *)
(*   ip, have, sup   the last IP, whether there is one, whether the last   *)
(*                   IP packet was suppressed                              *)
(*   tm, tc          time and calibration                                  *)
(*   tsc, fcr        what was shown last (for differences)                 *)
(*   hdr             inside of PSB+                                        *)
(*   done            the dump is complete                                  *)
(* Each step handles the next packet and answers the lines that it prints  *)
(* and the new state.                                                      *)
(***************************************************************************)
EXTENDS Sync, TimeCal, Text

ErrText(e) == CASE e = "bad_opc" -> "unknown opcode"
                [] e = "bad_packet" -> "unknown packet"
                [] e = "bad_context" -> "unexpected packet context"
                [] e = "bad_config" -> "bad configuration"
                [] e = "internal" -> "internal error"
                [] e = "no_time" -> "no timing information"
                [] e = "noip" -> "no ip"
                [] e = "bad_cpu" -> "unknown cpu"

Diag(off, what, e) == "[" \o HexI(off) \o ": " \o what
                      \o Has(e # "", ": " \o ErrText(e)) \o "]"

Dump0 == [pos |-> 0, sync |-> -1, ip |-> W0, have |-> FALSE, sup |-> FALSE,
          tm |-> Time0, tc |-> Cal0, tsc |-> W0, fcr |-> W0, hdr |-> FALSE,
          done |-> FALSE]

\* The state after synchronizing at x; -1: there is no further sync point.
At(x) == [Dump0 EXCEPT !.pos = x, !.sync = x, !.done = x < 0]

Start(c, o) == IF o.nosync THEN At(0) ELSE At(Forward(c.buf, -1, -1))

-----------------------------------------------------------------------------
(* What is shown for a packet: its name n and its operands p.              *)
Op(n, p) == [n |-> n, p |-> p]

Ip(w, ipc) ==
  Dec(ipc) \o ": " \o
  CASE ipc = 0 -> "????????????????"
    [] ipc = 1 -> "????????????" \o HexLow(w, 4)
    [] ipc = 2 -> "????????" \o HexLow(w, 8)
    [] ipc = 3 -> Hex16(WSext(w, 6))
    [] ipc = 4 -> "????" \o HexLow(w, 12)
    [] ipc = 6 -> Hex16(w)
\* 3 is the sign extended form; 4 only updates.

RECURSIVE Tnt(_, _)
Tnt(w, n) == IF n = 0 THEN ""
             ELSE (IF WBit(w, n - 1) = 1 THEN "!" ELSE ".") \o Tnt(w, n - 1)

Commas(s) == \* non-empty texts of a sequence
  LET t == SelectSeq(s, LAMBDA x : x # "")
      RECURSIVE join(_)
      join(k) == IF k > Len(t) THEN ""
                 ELSE Has(k > 1, ", ") \o t[k] \o join(k + 1)
  IN join(1)

\* C-states: 15 stands for C0.
CState(n) == "c" \o Dec((n + 1) % 16)

Wake(p) == LET n == p.int + p.store + p.auto
           IN CASE n # 1 -> "bad" [] p.int = 1 -> "int"
                [] p.store = 1 -> " st" [] OTHER -> " hw"

Shown(p) ==
  CASE p.t \in {"fup", "tip"} -> Op(p.t, Ip(p.ip, p.ipc))
    [] p.t = "tip_pge" -> Op("tip.pge", Ip(p.ip, p.ipc))
    [] p.t = "tip_pgd" -> Op("tip.pgd", Ip(p.ip, p.ipc))
    [] p.t \in {"pad", "psb", "psbend", "ovf", "stop"} -> Op(p.t, "")
    [] p.t = "invalid" -> Op("<invalid>", "")
    [] p.t = "pip" -> Op("pip", Hex(p.cr3) \o Has(p.nr = 1, ", nr"))
    [] p.t = "vmcs" -> Op("vmcs", Hex(p.base))
    [] p.t = "tnt_8" -> Op("tnt.8", Tnt(p.bits, p.n))
    [] p.t = "tnt_64" -> Op("tnt.64", Tnt(p.bits, p.n))
    [] p.t = "mode_exec" ->
         Op("mode.exec", Commas(<< Has(p.csd = 1, "cs.d"),
                                   Has(p.csl = 1, "cs.l"),
                                   Has(p.iflag = 1, "if") >>))
    [] p.t = "mode_tsx" ->
         Op("mode.tsx", Commas(<< Has(p.intx = 1, "intx"),
                                  Has(p.abrt = 1, "abrt") >>))
    [] p.t = "tsc" -> Op("tsc", Hex(p.tsc))
    [] p.t = "cbr" -> Op("cbr", HexI(p.ratio))
    [] p.t = "tma" -> Op("tma", HexI(p.ctc) \o ", " \o HexI(p.fc))
    [] p.t = "mtc" -> Op("mtc", HexI(p.ctc))
    [] p.t = "cyc" -> Op("cyc", Hex(p.value))
    [] p.t = "mnt" -> Op("mnt", Hex(p.payload))
    [] p.t = "exstop" -> Op("exstop", Has(p.ip = 1, "ip"))
    [] p.t = "mwait" -> Op("mwait", HexPad(p.hints, 8) \o ", "
                                    \o HexPad(p.ext, 8))
    [] p.t = "pwre" -> Op("pwre", CState(p.state) \o "."
                                  \o Dec((p.sub_state + 1) % 16)
                                  \o Has(p.hw = 1, ", hw"))
    [] p.t = "pwrx" -> Op("pwrx", Wake(p) \o ": " \o CState(p.last) \o ", "
                                  \o CState(p.deepest))
    [] p.t = "ptw" -> Op("ptw", Dec(p.plc) \o ": " \o Hex(p.payload)
                                \o Has(p.ip = 1, ", ip"))
    [] p.t = "cfe" ->
         Op("cfe", Dec(p.type) \o
                   \* an interrupt's vector, the vector of a SIPI
                   (CASE p.type \in {1, 9, 12} -> ": " \o Dec(p.vector)
                      [] p.type = 5 -> ": " \o HexI(p.vector)
                      [] OTHER -> "")
                   \o Has(p.ip = 1, ", ip"))
    [] p.t = "evd" -> Op("evd", Dec(p.type) \o ": " \o Hex(p.payload))
    [] p.t = "trig" -> Op("trig", HexByte(p.trbv) \o Has(p.ip = 1, ", ip")
                                  \o Has(p.mult = 1, ", mult")
                                  \o Has(p.icntv = 1, ", icnt: "
                                                      \o Dec(p.icnt)))

-----------------------------------------------------------------------------
(* What is tracked at a packet: [s, d, id, v]: the state, the lines that   *)
(* report problems, and what is shown, "" if nothing.                      *)
NoTrack(s) == [s |-> s, d |-> << >>, id |-> "", v |-> ""]
Unavail == "<unavailable>"
IfErr(off, what, e) == IF e = "" THEN << >> ELSE << Diag(off, what, e) >>

TrackIp(s, p) ==
  LET s1 == IF p.ipc = 0 THEN [s EXCEPT !.sup = TRUE]
            ELSE [s EXCEPT
                    !.ip = CASE p.ipc = 1 -> WMerge(@, p.ip, 2)
                             [] p.ipc = 2 -> WMerge(@, p.ip, 4)
                             [] p.ipc = 3 -> WSext(p.ip, 6)
                             [] p.ipc = 4 -> WMerge(@, p.ip, 6)
                             [] OTHER -> p.ip,
                    !.have = TRUE, !.sup = FALSE]
  IN [s |-> s1, id |-> "ip",
      d |-> IF s1.have THEN << >>
            ELSE << Diag(s.pos, "error tracking last-ip", "noip") >>,
      v |-> IF ~s1.have THEN Unavail
            ELSE IF s1.sup THEN "<suppressed>" ELSE Hex16(s1.ip)]

Signed(a, b, f(_)) == \* the difference a - b
  IF WLE(b, a) THEN "+" \o f(WSub(a, b)) ELSE "-" \o f(WSub(b, a))

ShowTime(c, o, s) ==
  IF ~s.tm.have_tsc /\ ~o.nowall
  THEN [s |-> s, id |-> "tsc", v |-> Unavail,
        d |-> << Diag(s.pos, "error printing time", "no_time") >>]
  ELSE [s |-> IF o.delta THEN [s EXCEPT !.tsc = s.tm.tsc] ELSE s,
        id |-> "tsc", d |-> << >>,
        v |-> IF o.delta THEN Signed(s.tm.tsc, s.tsc, Hex)
              ELSE Hex16(s.tm.tsc)]

\* A ratio that is out of every proportion is not judged.
Unjudged == "*"
Ratio(w) == IF Fixed8Fits(w) THEN Fixed8(w) ELSE Unjudged
ShowCal(c, o, s) ==
  IF ~HaveFcr(s.tc)
  THEN [s |-> s, id |-> "fcr", v |-> Unavail,
        d |-> << Diag(s.pos, "error printing time", "no_time") >>]
  ELSE [s |-> IF o.delta THEN [s EXCEPT !.fcr = s.tc.fcr] ELSE s,
        id |-> "fcr", d |-> << >>,
        v |-> IF ~Fixed8Fits(s.tc.fcr) \/ ~Fixed8Fits(s.fcr) THEN Unjudged
              ELSE IF o.delta THEN Signed(s.tc.fcr, s.fcr, Ratio)
              ELSE Ratio(s.tc.fcr)]

\* Calibration and time at a timing packet: [ce, tc], [e, tm].
Calibrate(c, o, s, p) ==
  IF o.notcal THEN [e |-> "", tc |-> s.tc]
  ELSE CASE p.t = "tsc" -> IF s.hdr THEN CalHeaderTsc(s.tc, p.tsc)
                           ELSE [e |-> "", tc |-> CalTsc(s.tc, p.tsc)]
         [] p.t = "cbr" -> IF s.hdr THEN CalHeaderCbr(c, s.tc, p.ratio)
                           ELSE CalCbr(c, s.tc, p.ratio)
         [] p.t = "tma" -> [e |-> "", tc |-> s.tc]
         [] p.t = "mtc" -> CalMtc(c, s.tc, p.ctc)
         [] p.t = "cyc" -> [e |-> "", tc |-> CalCyc(s.tc, p.value)]

CycRatio(o, s) == IF o.notcal THEN W0 ELSE Fcr(s.tc)
UpdateTime(c, o, s, p) ==
  CASE p.t = "tsc" -> [e |-> "", tm |-> TimeTsc(s.tm, p.tsc)]
    [] p.t = "cbr" -> TimeCbr(s.tm, p.ratio)
    [] p.t = "tma" -> TimeTma(c, s.tm, p.ctc, p.fc)
    [] p.t = "mtc" -> TimeMtc(c, s.tm, p.ctc)
    [] p.t = "cyc" -> TimeCyc(c, s.tm, p.value, CycRatio(o, s))

TrackTime(c, o, s, p) ==
  LET x == Calibrate(c, o, s, p)
      t == UpdateTime(c, o, s, p)
      s1 == [s EXCEPT !.tc = x.tc, !.tm = t.tm]
      d == (IF p.t = "cyc" /\ ~o.notcal /\ ~HaveFcr(s.tc)
            THEN << Diag(s.pos, "calibration error", "no_time") >>
            ELSE << >>)
           \o IfErr(s.pos, "error calibrating time", x.e)
           \o IfErr(s.pos, "error updating time", t.e)
           \o (IF p.t = "cyc" /\ t.e = "" /\ CycRatio(o, s) = W0
               THEN << Diag(s.pos, "error updating time: no calibration", "") >>
               ELSE << >>)
      y == IF o.tcal /\ p.t \notin {"tma", "cyc"} THEN ShowCal(c, o, s1)
           ELSE IF o.time /\ p.t # "cbr" THEN ShowTime(c, o, s1)
           ELSE NoTrack(s1)
  IN [y EXCEPT !.d = d \o @]

ExecMode(p) == CASE p.csl = 1 /\ p.csd = 0 -> "64-bit"
                 [] p.csl = 0 /\ p.csd = 1 -> "32-bit"
                 [] p.csl = 0 /\ p.csd = 0 -> "16-bit"
                 [] OTHER -> "unknown"

NoIp(s) == [s EXCEPT !.ip = W0, !.have = FALSE, !.sup = FALSE]
IsIp(t) == t \in {"fup", "tip", "tip_pge", "tip_pgd"}

Track(c, o, s, p) ==
  LET timing == o.time \/ o.tcal
      static(id, w) == [s |-> s, d |-> << >>, id |-> id, v |-> Hex16(w)]
  IN CASE p.t = "psb" ->
            NoTrack([NoIp(s) EXCEPT !.hdr = TRUE,
                                    !.tc = IF timing THEN CalPsb(c, @) ELSE @])
       [] p.t = "psbend" -> NoTrack([s EXCEPT !.hdr = FALSE])
       [] p.t = "ovf" ->
            NoTrack([NoIp(s) EXCEPT !.hdr = FALSE,
                                    !.tc = IF ~timing THEN @
                                           ELSE IF o.keep THEN CalOvf(@)
                                           ELSE Cal0])
       [] IsIp(p.t) /\ o.lastip -> TrackIp(s, p)
       [] p.t = "pip" -> static("cr3", p.cr3)
       [] p.t = "vmcs" -> static("vmcs", p.base)
       [] p.t = "mode_exec" /\ o.em ->
            [s |-> s, d |-> << >>, id |-> "em", v |-> ExecMode(p)]
       [] IsTiming(p.t) /\ timing /\ ~(p.t = "cyc" /\ o.nocyc) ->
            TrackTime(c, o, s, p)
       [] OTHER -> NoTrack(s)

\* The packets that are left out.
Hidden(o, t) == \/ o.quiet
                \/ o.nopad /\ t = "pad"
                \/ o.notiming /\ IsTiming(t)
                \/ o.nocyc /\ t = "cyc"

\* The line of a packet, and what is tracked in it on its own.
Columns(c, o, s, x) ==
  LET q == Shown(x.pkt)
  IN Has(o.offset, Pad(Hex16(WInt(s.pos)), 17) \o " ")
     \o Has(o.raw, Pad(HexBytes(SubSeq(c.buf, s.pos + 1, s.pos + x.s)), 33)
                   \o " ")
     \o (IF q.p = "" THEN q.n ELSE Pad(q.n, 10))
Line(c, o, s, x, y) ==
  LET q == Shown(x.pkt)
      l == Columns(c, o, s, x)
  IN IF y.id # "" THEN [h |-> l \o " " \o Pad(q.p, 25) \o " " \o Pad(y.id, 5),
                        v |-> y.v]
     ELSE [h |-> l \o Has(q.p # "", " " \o q.p), v |-> ""]

\* Lines are a prefix h and a text v.
Whole(l) == [h |-> l, v |-> ""]

-----------------------------------------------------------------------------
Step(c, o, s) ==
  LET x == PktAt(c, s.pos)
      y == Track(c, o, s, x.pkt)
      wholes(d) == [k \in 1..Len(d) |-> Whole(d[k])]
  IN IF x.err = "eos" THEN [l |-> << >>, s |-> [s EXCEPT !.done = TRUE]]
     ELSE IF x.err # ""
     THEN [l |-> << Whole(Diag(s.pos, "error decoding packet", x.err)) >>,
           s |-> At(Forward(c.buf, s.pos, s.sync))]
     ELSE [l |-> wholes(y.d) \o
                 (IF Hidden(o, x.pkt.t) THEN << >>
                  ELSE << Line(c, o, s, x, y) >>),
           s |-> [y.s EXCEPT !.pos = s.pos + x.n]]
=============================================================================
