------------------------------ MODULE TimeCal -------------------------------
(***************************************************************************)
(* Time and its calibration: what TSC, TMA, MTC, CYC and CBR packets say   *)
(* about the current time (Intel SDM vol. 3, "Timestamp estimation").      *)
(*                                                                         *)
(* Configuration: c.mtc (the MTC frequency), c.nom (nominal frequency),    *)
(* c.eax, c.ebx (CPUID leaf 15h, as words), c.err.skl168.                  *)
(* Every update is [e, tm] or [e, tc]: the error, "" if none, and the new  *)
(* state.                                                                  *)
(***************************************************************************)
EXTENDS Word

Time0 == [have_tsc |-> FALSE, have_cbr |-> FALSE, have_tma |-> FALSE,
          have_mtc |-> FALSE, tsc |-> W0, base |-> W0, fc |-> W0,
          ctc |-> 0, ctc_cyc |-> 0, cbr |-> 0, lm |-> 0, lc |-> 0]
Cal0 == [fcr |-> W0, lo |-> WMax, hi |-> W0, tsc |-> W0, cyc_tsc |-> W0,
         cyc_mtc |-> W0, ctc |-> 0, have_mtc |-> FALSE, skl168 |-> FALSE]

\* CTC ticks from last to ctc: [e, v].
CtcDelta(c, ctc, last) ==
  LET x == IF ctc < last THEN ctc + 2^(c.mtc + 8) ELSE ctc
  IN IF x < last THEN [e |-> "bad_packet", v |-> 0]
     ELSE [e |-> "", v |-> x - last]

\* CTC ticks in TSC ticks: [e, v].
CtcFc(c, ctc) ==
  IF c.eax = W0 \/ c.ebx = W0 THEN [e |-> "bad_config", v |-> W0]
  ELSE [e |-> "", v |-> WDiv(WMul(WInt(ctc), c.ebx), c.eax)]

-----------------------------------------------------------------------------
TimeTsc(tm, tsc) ==
  [tm EXCEPT !.have_tsc = TRUE, !.have_tma = FALSE, !.have_mtc = FALSE,
             !.tsc = tsc, !.base = tsc, !.ctc = 0, !.fc = W0,
             !.lm = 0, !.lc = 0]

TimeCbr(tm, ratio) ==
  IF ratio = 0 THEN [e |-> "bad_packet", tm |-> tm]
  ELSE [e |-> "", tm |-> [tm EXCEPT !.have_cbr = TRUE, !.cbr = ratio]]

TimeTma(c, tm, ctc, fc) ==
  IF ~tm.have_tsc \/ tm.have_tma THEN [e |-> "bad_context", tm |-> tm]
  ELSE IF tm.have_mtc THEN [e |-> "internal", tm |-> tm]
  ELSE LET x == ctc % 2^(c.mtc + 8)
       IN [e |-> "",
           tm |-> [tm EXCEPT !.have_tma = TRUE,
                             !.base = WSub(@, WInt(fc)),
                             !.fc = WAdd(@, WInt(fc)),
                             !.have_mtc = (c.mtc + 8 <= 16) \/ @,
                             !.ctc = x, !.ctc_cyc = x]]

\* The CTC at which time was last updated, with the bits that an MTC carries
\* but the TMA did not.
LastCtc(c, last, ctc) ==
  LET lo == ctc % 65536
      hi == ctc - lo
      h2 == IF lo < last
            THEN (hi + 2^24 - 65536) & (255 * 2^c.mtc)
            ELSE hi
  IN last + h2

TimeMtc(c, tm, mtc) ==
  IF tm.have_tsc /\ ~tm.have_tma THEN [e |-> "", tm |-> tm]
  ELSE
  LET ctc == mtc * 2^c.mtc
      t1 == [tm EXCEPT
               !.ctc_cyc = IF tm.fc # W0 \/ tm.lc # 0 \/ ~tm.have_mtc
                           THEN ctc ELSE @,
               !.have_mtc = TRUE, !.fc = W0, !.ctc = ctc, !.lc = 0]
      last == IF tm.have_mtc THEN tm.ctc ELSE LastCtc(c, tm.ctc, ctc)
      dl == CtcDelta(c, ctc, last)
      df == CtcFc(c, dl.v)
      base == WAdd(tm.base, df.v)
  IN IF ~tm.have_mtc /\ ~tm.have_tma THEN [e |-> "", tm |-> t1]
     ELSE IF dl.e # "" THEN [e |-> dl.e, tm |-> [t1 EXCEPT !.lm = @ + 1]]
     ELSE IF df.e # "" THEN [e |-> df.e, tm |-> t1]
     ELSE [e |-> "", tm |-> [t1 EXCEPT !.tsc = base, !.base = base]]

\* Cycles that were accounted for by MTC between the last CYC and now.
AdjustCyc(c, tm, cyc, fcr) ==
  IF tm.ctc = tm.ctc_cyc THEN [e |-> "", v |-> cyc]
  ELSE
  LET dl == CtcDelta(c, tm.ctc, tm.ctc_cyc)
      df == CtcFc(c, dl.v)
      old == WDiv(WShl(df.v, 8), fcr)
  IN IF dl.e # "" THEN [e |-> dl.e, v |-> cyc]
     ELSE IF df.e # "" THEN [e |-> df.e, v |-> cyc]
     ELSE [e |-> "", v |-> IF WLT(cyc, old) THEN W0 ELSE WSub(cyc, old)]

TimeCyc(c, tm, value, fcr) ==
  IF fcr = W0 THEN [e |-> "", tm |-> [tm EXCEPT !.lc = @ + 1]]
  ELSE
  LET a == IF tm.fc = W0 THEN AdjustCyc(c, tm, value, fcr)
           ELSE [e |-> "", v |-> value]
      fc == WAdd(tm.fc, WShr(WMul(a.v, fcr), 8))
  IN IF a.e # "" THEN [e |-> a.e, tm |-> tm]
     ELSE [e |-> "", tm |-> [tm EXCEPT !.fc = fc,
                                       !.tsc = WAdd(tm.base, fc)]]

-----------------------------------------------------------------------------
HaveFcr(tc) == WLE(tc.lo, tc.hi)
Fcr(tc) == IF HaveFcr(tc) THEN tc.fcr ELSE W0
SetFcr(tc, f) == [tc EXCEPT !.fcr = f,
                            !.lo = IF WLT(f, @) THEN f ELSE @,
                            !.hi = IF WLT(@, f) THEN f ELSE @]

CalPsb(c, tc) == IF c.skl168 THEN [tc EXCEPT !.skl168 = TRUE] ELSE tc
CalTsc(tc, tsc) == [tc EXCEPT !.tsc = tsc, !.cyc_tsc = W0]

CalHeaderTsc(tc, tsc) ==
  LET t1 == CalTsc(tc, tsc)
      top == WPow2(56)
      t == IF WLT(tsc, tc.tsc) THEN WAdd(tsc, top) ELSE tsc
      dt == WSub(t, tc.tsc)
  IN IF tc.tsc = W0 \/ tc.cyc_tsc = W0 \/ tc.have_mtc
     THEN [e |-> "", tc |-> t1]
     ELSE [e |-> "", tc |-> SetFcr(t1, WDiv(WShl(dt, 8), tc.cyc_tsc))]

CalHeaderCbr(c, tc, ratio) ==
  IF c.nom = 0 THEN [e |-> "", tc |-> tc]
  ELSE IF ratio = 0 THEN [e |-> "bad_packet", tc |-> tc]
  ELSE [e |-> "", tc |-> SetFcr(tc, WInt((c.nom * 256) \div ratio))]

CalCbr(c, tc, ratio) == CalHeaderCbr(c, Cal0, ratio)

CalMtc(c, tc, mtc) ==
  LET ctc == mtc * 2^c.mtc
      t1 == [tc EXCEPT !.skl168 = FALSE]
      t2 == [t1 EXCEPT !.cyc_mtc = W0, !.ctc = ctc, !.have_mtc = TRUE]
      dl == CtcDelta(c, ctc, tc.ctc)
      df == CtcFc(c, dl.v)
      fcr == WDiv(WShl(df.v, 8), tc.cyc_mtc)
      \* erratum SKL168: the first CYC after a PSB may be too small when MTC
      \* are lost
      lost == /\ tc.skl168
              /\ \/ 2^c.mtc < dl.v
                 \/ /\ c.mtc < 10 /\ HaveFcr(tc)
                    /\ WLT(WShr(WMul(tc.fcr, WAdd(tc.cyc_mtc, WInt(3840))), 8),
                           df.v)
  IN IF ~tc.have_mtc THEN [e |-> "", tc |-> t2]
     ELSE IF tc.cyc_mtc = W0 THEN [e |-> "", tc |-> t1]
     ELSE IF dl.e # "" THEN [e |-> dl.e, tc |-> t2]
     ELSE IF df.e # "" THEN [e |-> df.e, tc |-> t2]
     ELSE IF lost THEN [e |-> "", tc |-> t2]
     ELSE [e |-> "", tc |-> SetFcr(t2, fcr)]

CalCyc(tc, value) == [tc EXCEPT !.cyc_mtc = WAdd(@, value),
                                !.cyc_tsc = WAdd(@, value)]
CalOvf(tc) == [tc EXCEPT !.tsc = W0, !.cyc_tsc = W0, !.cyc_mtc = W0,
                         !.ctc = 0, !.have_mtc = FALSE]
-----------------------------------------------------------------------------
(***************************************************************************)
(* The effect of a timing packet on both: [e, tm, tc].  Missing            *)
(* configuration is no error.                                              *)
(***************************************************************************)
Fatal(e) == e # "" /\ e # "bad_config"
Both(x, tmr) == \* x: calibration result, tmr: time result
  IF Fatal(x.e) THEN [e |-> x.e, tm |-> tmr.old, tc |-> x.tc]
  ELSE IF Fatal(tmr.e) THEN [e |-> tmr.e, tm |-> tmr.tm, tc |-> x.tc]
  ELSE [e |-> "", tm |-> tmr.tm, tc |-> x.tc]

\* hdr: inside a PSB+ header.
Apply(c, tm, tc, pkt, hdr) ==
  LET R(r) == [e |-> r.e, tm |-> r.tm, old |-> tm]
      OkT(t) == [e |-> "", tm |-> t, old |-> tm]
      OkC(t) == [e |-> "", tc |-> t]
  IN CASE pkt.t = "tsc" ->
            Both(IF hdr THEN CalHeaderTsc(tc, pkt.tsc)
                 ELSE OkC(CalTsc(tc, pkt.tsc)), OkT(TimeTsc(tm, pkt.tsc)))
       [] pkt.t = "cbr" ->
            Both(IF hdr THEN CalHeaderCbr(c, tc, pkt.ratio)
                 ELSE CalCbr(c, tc, pkt.ratio), R(TimeCbr(tm, pkt.ratio)))
       [] pkt.t = "tma" -> Both(OkC(tc), R(TimeTma(c, tm, pkt.ctc, pkt.fc)))
       [] pkt.t = "mtc" -> Both(CalMtc(c, tc, pkt.ctc),
                                R(TimeMtc(c, tm, pkt.ctc)))
       [] pkt.t = "cyc" ->
            LET k == CalCyc(tc, pkt.value)
            IN Both(OkC(k), R(TimeCyc(c, tm, pkt.value, Fcr(k))))
IsTiming(t) == t \in {"tsc", "cbr", "tma", "mtc", "cyc"}
=============================================================================
