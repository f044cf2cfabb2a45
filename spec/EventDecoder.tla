---------------------------- MODULE EventDecoder ----------------------------
(***************************************************************************)
(* The events that a sequence of packets encodes.                          *)
(*                                                                         *)
(* The state of the decoder is a record d:                                 *)
(*   pos, sync     the packet decoder's position and sync point (-1: none) *)
(*   pkt, psz, st  the current packet, its size, and the error that        *)
(*                 prevented reading it ("" if none)                       *)
(*   ip, have, sup the last IP, whether there is one, and whether the last *)
(*                 IP packet was suppressed                                *)
(*   tm, tc        time and its calibration                                *)
(*   q             pending events, each with the set of packets it may     *)
(*                 bind to                                                 *)
(*   en            tracing is enabled                                      *)
(*   bound         the current packet already has an event bound to it     *)
(*   mev, iflag, csd, csl   the last MODE.EXEC                             *)
(* The configuration is a record c (see Sync, TimeCal) with the errata     *)
(* flags bdm70, skd010, apl11, apl12 and skl168 and with iflags (report    *)
(* interrupt flag changes) and keep (keep calibration across overflows).   *)
(*                                                                         *)
(* Every packet handler answers [c, d, e, ev]: c is "ev" if there is an    *)
(* event ev, "more" if the packet is done without one, "err" for error e.  *)
(***************************************************************************)
EXTENDS Sync, TimeCal

QMax == 14
Invalid == [t |-> "invalid"]
NoEv == [t |-> "", su |-> 0, ips |-> 0, ht |-> 0, tsc |-> W0, lm |-> 0,
         lc |-> 0, p |-> [z |-> 0]]
E(t, p) == [NoEv EXCEPT !.t = t, !.p = p]

More(d) == [c |-> "more", d |-> d, e |-> "", ev |-> NoEv]
Ev(d, ev) == [c |-> "ev", d |-> d, e |-> "", ev |-> ev]
Fail(d, e) == [c |-> "err", d |-> d, e |-> e, ev |-> NoEv]

Dec0 == [pos |-> -1, sync |-> -1, pkt |-> Invalid, psz |-> 0,
         st |-> "nosync", ip |-> W0, have |-> FALSE, sup |-> FALSE,
         tm |-> Time0, tc |-> Cal0, q |-> << >>, en |-> FALSE,
         bound |-> FALSE, mev |-> FALSE, iflag |-> 0, csd |-> 0, csl |-> 0]

\* What synchronizing (again) forgets.
Reset(d) == [Dec0 EXCEPT !.pos = d.pos, !.sync = d.sync,
                         !.iflag = d.iflag, !.csd = d.csd, !.csl = d.csl]

-----------------------------------------------------------------------------
(* Reading packets.  PAD is skipped.                                       *)
RECURSIVE SkipPads(_, _)
SkipPads(b, p) == IF p < Len(b) /\ b[p + 1] = 0 THEN SkipPads(b, p + 1) ELSE p

Fetch(c, d) ==
  LET p == SkipPads(c.buf, d.pos)
      x == PktAt(c, p)
  IN IF x.err = "" THEN [d EXCEPT !.pos = p + x.n, !.pkt = x.pkt, !.psz = x.s]
     ELSE [d EXCEPT !.pos = p, !.pkt = Invalid, !.psz = 0, !.st = x.err]

EvFetch(c, d, ev) == Ev(Fetch(c, d), ev)

-----------------------------------------------------------------------------
(* IP compression.                                                         *)
UpdateIp(d, p) ==
  IF p.ipc = 0 THEN [d EXCEPT !.sup = TRUE]
  ELSE [d EXCEPT
         !.ip = CASE p.ipc = 1 -> WMerge(@, p.ip, 2)
                  [] p.ipc = 2 -> WMerge(@, p.ip, 4)
                  [] p.ipc = 3 -> WSext(p.ip, 6)
                  [] p.ipc = 4 -> WMerge(@, p.ip, 6)
                  [] OTHER -> p.ip,
         !.have = TRUE, !.sup = FALSE]
IpErr(d) == IF ~d.have THEN "noip" ELSE IF d.sup THEN "ip_suppressed" ELSE ""

-----------------------------------------------------------------------------
(* Events.                                                                 *)
AtTime(d, ev) == [ev EXCEPT !.ht = IF d.tm.have_tsc THEN 1 ELSE 0,
                            !.tsc = IF d.tm.have_tsc THEN d.tm.tsc ELSE W0,
                            !.lm = d.tm.lm, !.lc = d.tm.lc]
AtIp(d, ev) ==
  IF IpErr(d) # "" THEN [ev EXCEPT !.ips = 1, !.p.ip = W0]
  ELSE [ev EXCEPT !.p.ip = d.ip]
NoIp(ev) == [ev EXCEPT !.ips = 1]

Full(d) == Len(d.q) >= QMax
Push(d, b, ev) == [d EXCEPT !.q = Append(@, [b |-> b, ev |-> ev])]
\* Queue an event and be done with the packet.
Queue(d, b, ev) == IF Full(d) THEN Fail(d, "nomem") ELSE More(Push(d, b, ev))

Idx(d, b) == {k \in 1..Len(d.q) : d.q[k].b \cap b # {}}
First(d, b) == MinOf(Idx(d, b))
Drop(d, k) == [d EXCEPT !.q = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]
Pending(d, b, t) == {k \in Idx(d, b) : d.q[k].ev.t = t}

TipB == {"tip"}
ModeB == {"tip", "fupb"}

-----------------------------------------------------------------------------
(* PSB+: packets give the current state; their events are reported at its  *)
(* end.                                                                    *)
Status(ev) == [ev EXCEPT !.su = 1]

\* Scan ahead for a TIP.PGE: erratum BDM70, a PSB+ with a FUP just before
\* tracing is enabled.
RECURSIVE Bdm70(_, _)
Bdm70(c, p) ==
  LET x == PktAt(c, p) IN
  IF x.err # "" THEN [e |-> IF x.err = "eos" THEN "" ELSE x.err, v |-> FALSE]
  ELSE IF x.pkt.t = "tip_pge" THEN [e |-> "", v |-> TRUE]
  ELSE IF x.pkt.t \in {"pad", "tsc", "cbr", "psbend", "pip", "mode_exec",
                       "mode_tsx", "vmcs", "tma", "mtc", "cyc", "mnt"}
       THEN Bdm70(c, p + x.n)
  ELSE [e |-> "", v |-> FALSE]

ExecMode(pkt) == IF pkt.csl = 1 THEN IF pkt.csd = 1 THEN 0 ELSE 3
                 ELSE IF pkt.csd = 1 THEN 2 ELSE 1

HeaderFup(c, d) ==
  LET b == IF c.bdm70 THEN Bdm70(c, d.pos) ELSE [e |-> "", v |-> FALSE]
      en == d.pkt.ipc # 0 /\ ~b.v
  IN IF b.e # "" THEN Fail(d, b.e)
     ELSE IF en THEN More(UpdateIp([d EXCEPT !.en = TRUE], d.pkt))
     ELSE More([d EXCEPT !.en = FALSE])

HeaderModeExec(c, d) ==
  LET m == d.pkt
      d1 == [d EXCEPT !.mev = TRUE, !.iflag = m.iflag, !.csd = m.csd,
                      !.csl = m.csl]
      d2 == IF d.mev THEN d ELSE d1
      d3 == Push(d2, {"psbend"},
                 Status(E("exec_mode", [mode |-> ExecMode(m), ip |-> W0])))
  IN IF d.mev /\ ((c.iflags /\ d.iflag # m.iflag) \/ d.csd # m.csd
                  \/ d.csl # m.csl) THEN Fail(d, "bad_status_update")
     ELSE IF Full(d2) THEN Fail(d2, "nomem")
     ELSE IF c.iflags
          THEN Queue(d3, {"psbend"},
                     Status(E("iflags", [iflag |-> m.iflag, ip |-> W0])))
     ELSE More(d3)

HeaderTime(c, d) ==
  LET r == Apply(c, d.tm, d.tc, d.pkt, TRUE)
      d1 == [d EXCEPT !.tm = r.tm, !.tc = r.tc]
  IN IF r.e # "" THEN Fail(d1, r.e)
     ELSE IF d.pkt.t = "cbr"
          THEN Queue(d1, {"psbend"},
                     Status(E("cbr", [ratio |-> d.pkt.ratio])))
     ELSE More(d1)

Header(c, d) ==
  LET p == d.pkt IN
  CASE p.t = "fup" -> HeaderFup(c, d)
    [] p.t = "mode_exec" -> HeaderModeExec(c, d)
    [] p.t = "mode_tsx" ->
         Queue(d, {"psbend"}, Status(E("tsx", [intx |-> p.intx,
                                               abrt |-> p.abrt, ip |-> W0])))
    [] p.t = "pip" ->
         Queue(d, {"psbend"}, Status(E("async_paging",
                              [cr3 |-> p.cr3, nr |-> p.nr, ip |-> W0])))
    [] p.t = "vmcs" ->
         Queue(d, {"psbend"}, Status(E("async_vmcs",
                              [base |-> p.base, ip |-> W0])))
    [] p.t = "mnt" ->
         Queue(d, {"psbend"}, E("mnt", [payload |-> p.payload]))
    [] IsTiming(p.t) -> HeaderTime(c, d)
    [] p.t = "invalid" -> IF d.st = "" THEN More(d) ELSE Fail(d, d.st)
    [] OTHER -> Fail(d, "bad_context")

\* Read the packets of a PSB+ up to its end.  The first pending event is the
\* one that says whether tracing is enabled.
RECURSIVE HeaderLoop(_, _)
HeaderLoop(c, d) ==
  LET d1 == Fetch(c, d)
      x == Header(c, d1)
      status == IF d1.en THEN Status(E("enabled", [ip |-> W0, resumed |-> 0]))
                ELSE NoIp(Status(E("disabled", [ip |-> W0])))
  IN IF d1.pkt.t = "psbend" \/ (d1.pkt.t = "ovf" /\ d1.en)
       THEN More([d1 EXCEPT !.q[1].ev = status])
     ELSE IF d1.pkt.t = "ovf" THEN More(Drop(d1, 1))
     ELSE IF x.c = "more" THEN HeaderLoop(c, x.d)
     ELSE x

DecodePsb(c, d) ==
  IF d.q # << >> THEN Fail(d, "bad_context")
  ELSE HeaderLoop(c, Push([d EXCEPT !.tc = CalPsb(c, @), !.ip = W0,
                                    !.have = FALSE, !.sup = FALSE,
                                    !.en = FALSE], {"psbend"}, NoEv))

\* Report the events of a PSB+ one by one.
DecodePsbend(c, d) ==
  IF Idx(d, {"psbend"}) = {} THEN More(d)
  ELSE LET k == First(d, {"psbend"})
           ev == d.q[k].ev
           d1 == Drop(d, k)
       IN IF ev.t \in {"disabled", "cbr", "mnt"} THEN Ev(d1, AtTime(d, ev))
          ELSE Ev(d1, AtTime(d, AtIp(d, ev)))

-----------------------------------------------------------------------------
(* Packets outside of PSB+.                                                *)
Standalone(c, d, ev) == EvFetch(c, d, AtTime(d, ev))
StandaloneNoIp(c, d, ev) == Standalone(c, d, NoIp(ev))

DecodeTime(c, d) ==
  LET r == Apply(c, d.tm, d.tc, d.pkt, FALSE)
      d1 == [d EXCEPT !.tm = r.tm, !.tc = r.tc]
  IN IF r.e # "" THEN Fail(d1, r.e)
     ELSE IF d.pkt.t = "cbr"
          THEN Standalone(c, d1, E("cbr", [ratio |-> d.pkt.ratio]))
     ELSE More(d1)

DecodeModeExec(c, d) ==
  LET m == d.pkt
      chg == ~d.mev \/ d.csl # m.csl \/ d.csd # m.csd
      ichg == c.iflags /\ (~d.mev \/ d.iflag # m.iflag)
      evs == (IF chg THEN <<E("exec_mode",
                              [mode |-> ExecMode(m), ip |-> W0])>>
              ELSE << >>) \o
             (IF ichg THEN <<E("iflags", [iflag |-> m.iflag, ip |-> W0])>>
              ELSE << >>)
      all == IF evs = << >> THEN <<E("ignore", [z |-> 0])>> ELSE evs
      d1 == [d EXCEPT !.csl = IF chg THEN m.csl ELSE @,
                      !.csd = IF chg THEN m.csd ELSE @,
                      !.iflag = IF ichg THEN m.iflag ELSE @,
                      !.mev = TRUE,
                      !.q = @ \o [k \in 1..Len(all) |->
                                  [b |-> ModeB, ev |-> all[k]]]]
  IN IF Len(d.q) + Len(all) > QMax THEN Fail(d, "nomem") ELSE More(d1)

DecodeModeTsx(c, d) ==
  LET ev == E("tsx", [intx |-> d.pkt.intx, abrt |-> d.pkt.abrt, ip |-> W0])
  IN IF d.en THEN Queue(d, IF d.pkt.abrt = 1 THEN {"fup"} ELSE {"fupb"}, ev)
     ELSE StandaloneNoIp(c, d, ev)

DecodePip(c, d) ==
  LET p == d.pkt IN
  IF Pending(d, TipB, "async_branch") # {}
  THEN Queue(d, TipB, E("async_paging",
                        [cr3 |-> p.cr3, nr |-> p.nr, ip |-> W0]))
  ELSE Standalone(c, d, E("paging", [cr3 |-> p.cr3, nr |-> p.nr]))

\* VMCS is ordered before PIP.
DecodeVmcs(c, d) ==
  LET pg == Pending(d, TipB, "async_paging")
      k == MinOf(pg)
      ev == E("async_vmcs", [base |-> d.pkt.base, ip |-> W0])
  IN IF pg # {}
     THEN IF Full(d) THEN Fail(d, "nomem")
          ELSE More([d EXCEPT !.q = [@ EXCEPT ![k].ev = ev] \o
                       <<[b |-> TipB, ev |-> d.q[k].ev]>>])
     ELSE IF Pending(d, TipB, "async_branch") # {} THEN Queue(d, TipB, ev)
     ELSE Standalone(c, d, E("vmcs", [base |-> d.pkt.base]))

ExstopEv == E("exstop", [ip |-> W0])
DecodeExstop(c, d) ==
  LET b == {"exstop"}
      k == First(d, b)
      d1 == Drop(d, k)
      mw == d.q[k].ev
  IN IF Idx(d, b) # {}
     THEN IF d.pkt.ip = 1
          THEN Queue(Push(d1, {"fupb"}, mw), {"fupb"}, ExstopEv)
          ELSE Ev(d1, AtTime(d, NoIp(mw)))
     ELSE IF d.pkt.ip = 1 THEN Queue(d, {"fupb"}, ExstopEv)
     ELSE StandaloneNoIp(c, d, ExstopEv)

DecodePtw(c, d) ==
  LET ev == E("ptwrite", [size |-> IF d.pkt.plc = 0 THEN 4 ELSE 8,
                          payload |-> d.pkt.payload, ip |-> W0])
  IN IF d.pkt.ip = 1 THEN Queue(d, {"fupb"}, ev)
     ELSE StandaloneNoIp(c, d, ev)

DecodeTrig(c, d) ==
  LET p == d.pkt
      ev == E("trig", [trbv |-> p.trbv, mult |-> p.mult, ip |-> W0,
                       icnt |-> p.icnt])
  IN IF p.ip = 1
     THEN IF p.icntv = 0 \/ p.icnt # 0 THEN Fail(d, "bad_packet")
          ELSE Queue(d, {"fupb"}, ev)
     ELSE IF p.icntv = 0
          THEN StandaloneNoIp(c, d, [ev EXCEPT !.p.icnt = 0])
     ELSE IF p.icnt # 0 /\ ~d.en THEN Fail(d, "bad_packet")
     ELSE Standalone(c, d, ev)

-----------------------------------------------------------------------------
(* Event tracing: CFE, and EVD, which precedes the CFE it belongs to.      *)
IntrEv == E("interrupt", [has_cr2 |-> 0, vector |-> 0, cr2 |-> W0, ip |-> W0])
VmexitEv == E("vmexit", [has_vector |-> 0, has_vmxr |-> 0, has_vmxq |-> 0,
                         vector |-> 0, vmxr |-> W0, vmxq |-> W0, ip |-> W0])
IpEv(t) == E(t, [ip |-> W0])
CfeEv(pkt, ev) ==
  CASE pkt.type = 1 -> [ev EXCEPT !.p.vector = pkt.vector]
    [] pkt.type = 2 -> IpEv("iret")
    [] pkt.type = 3 -> IpEv("smi")
    [] pkt.type = 4 -> E("rsm", [z |-> 0])
    [] pkt.type = 5 -> E("sipi", [vector |-> pkt.vector])
    [] pkt.type = 6 -> IpEv("init")
    [] pkt.type = 7 -> IpEv("vmentry")
    [] pkt.type = 8 -> ev
    [] pkt.type = 9 -> [ev EXCEPT !.p.has_vector = 1, !.p.vector = pkt.vector]
    [] pkt.type = 10 -> IpEv("shutdown")
    [] pkt.type = 12 -> E("uintr", [vector |-> pkt.vector, ip |-> W0])
    [] pkt.type = 13 -> IpEv("uiret")
\* Those that need an unbound FUP, i.e. one that also says where an
\* asynchronous branch started, unless they have a FUP of their own.
CfeFup == {1, 3, 4, 5, 6, 8, 9, 12}

DecodeCfe(c, d) ==
  LET p == d.pkt
      have == Idx(d, {"cfe"}) # {}
      k == First(d, {"cfe"})
      d1 == IF have THEN Drop(d, k) ELSE d
      known == p.type \in (1..10) \cup {12, 13}
      ev0 == IF have THEN d.q[k].ev
             ELSE IF p.type = 1 THEN IntrEv ELSE VmexitEv
      match == CASE p.type = 1 -> ev0.t = "interrupt"
                 [] p.type \in {8, 9} -> ev0.t = "vmexit"
                 [] OTHER -> ~have
      ev1 == CfeEv(p, ev0)
      ev == IF p.type \in {4, 5} THEN NoIp(ev1) ELSE ev1
  IN IF ~known
     THEN IF have THEN Fail(d1, "internal")
          ELSE IF p.ip = 1 THEN Queue(d1, {"fupb"}, E("ignore", [z |-> 0]))
          ELSE More(d1)
     ELSE IF ~match THEN Fail(d1, "bad_context")
     ELSE IF p.ip = 1
          THEN IF p.type \in {4, 5} THEN Fail(d1, "bad_packet")
               ELSE Queue(d1, {"fupb"}, ev)
     ELSE IF d.en /\ p.type \in CfeFup THEN Queue(d1, {"fup"}, ev)
     ELSE StandaloneNoIp(c, d1, ev)

DecodeEvd(c, d) ==
  LET p == d.pkt
      b == {"cfe"}
      have == Idx(d, b) # {}
      k == First(d, b)
      old == d.q[k].ev
      x == IF have THEN old ELSE VmexitEv
      new == IF p.type = 1
             THEN [x EXCEPT !.p.has_vmxq = 1, !.p.vmxq = p.payload]
             ELSE [x EXCEPT !.p.has_vmxr = 1, !.p.vmxr = p.payload]
  IN CASE p.type = 0 ->
            IF have THEN Fail(d, "bad_context")
            ELSE Queue(d, b, [IntrEv EXCEPT !.p.has_cr2 = 1,
                                            !.p.cr2 = p.payload])
       [] p.type \in {1, 2} ->
            IF ~have THEN Queue(d, b, new)
            ELSE IF old.t # "vmexit" THEN Fail(d, "bad_context")
            ELSE IF (p.type = 1 /\ old.p.has_vmxq = 1)
                    \/ (p.type = 2 /\ old.p.has_vmxr = 1)
                 THEN Fail(d, "bad_context")
            ELSE More([d EXCEPT !.q[k].ev = new])
       [] OTHER -> More(d)

-----------------------------------------------------------------------------
(* FUP and the TIP family.                                                 *)
RECURSIVE DecodeFup(_, _)
DecodeFup(c, d0) ==
  LET d == UpdateIp(d0, d0.pkt)
      d1 == [d EXCEPT !.bound = @ \/ Idx(d, {"fupb"}) # {}]
      b == {"fup", "fupb"}
      k == First(d1, b)
      ev == d1.q[k].ev
      d2 == Drop(d1, k)
  IN IF Idx(d1, b) = {}
     THEN IF d1.bound THEN More(d1)
          ELSE IF IpErr(d1) # "" THEN Fail(d1, IpErr(d1))
          ELSE Queue(d1, TipB, E("async_branch",
                                 [from |-> d1.ip, to |-> W0]))
     ELSE IF ev.t = "ignore" THEN DecodeFup(c, d2)
     ELSE IF ev.t = "overflow" THEN Ev([d2 EXCEPT !.en = TRUE], AtIp(d2, ev))
     ELSE IF ev.t \in {"rsm", "sipi"} THEN Ev(d2, AtTime(d2, ev))
     ELSE Ev(d2, AtTime(d2, AtIp(d2, ev)))

AsyncTo(d, ev) ==
  IF IpErr(d) # "" THEN [ev EXCEPT !.ips = 1, !.p.to = W0]
  ELSE [ev EXCEPT !.p.to = d.ip]

\* The branch comes first, then what binds to its destination.
TipBranch(c, d) ==
  LET a == Pending(d, TipB, "async_branch")
      k == MinOf(a)
      f == First(d, TipB)
      \* the branch changes places with the first pending event
      q1 == [d.q EXCEPT ![k] = [b |-> d.q[k].b, ev |-> d.q[f].ev]]
      d1 == [Drop([d EXCEPT !.q = q1], f) EXCEPT !.bound = TRUE]
  IN IF a # {} THEN Ev(d1, AtTime(d, AsyncTo(d, d.q[k].ev)))
     ELSE Ev([d EXCEPT !.bound = TRUE],
             AtTime(d, AtIp(d, E("tip", [ip |-> W0]))))

RECURSIVE DecodeTip(_, _)
DecodeTip(c, d0) ==
  LET d == UpdateIp(d0, d0.pkt)
      k == First(d, TipB)
      ev == d.q[k].ev
      d1 == Drop(d, k)
  IN IF ~d0.en THEN Fail(d0, "bad_context")
     ELSE IF ~d.bound THEN TipBranch(c, d)
     ELSE IF Idx(d, TipB) = {} THEN More(d)
     ELSE IF ev.t = "ignore" THEN DecodeTip(c, d1)
     ELSE IF ev.t = "async_branch" THEN Fail(d1, "internal")
     ELSE Ev(d1, AtTime(d, AtIp(d, ev)))

RECURSIVE DecodeTipPge(_, _)
DecodeTipPge(c, d0) ==
  LET d == UpdateIp(d0, d0.pkt)
      k == First(d, TipB)
      ev == d.q[k].ev
      d1 == Drop(d, k)
  IN IF ~d.bound
     THEN Ev([d EXCEPT !.en = TRUE, !.bound = TRUE],
             AtTime(d, AtIp(d, E("enabled", [ip |-> W0, resumed |-> 0]))))
     ELSE IF Idx(d, TipB) = {} THEN More(d)
     ELSE IF ev.t = "ignore" THEN DecodeTipPge(c, d1)
     ELSE IF ev.t \in {"exec_mode", "iflags"}
          THEN Ev(d1, AtTime(d, AtIp(d, ev)))
     ELSE Fail(d1, "bad_context")

RECURSIVE DecodeTipPgd(_, _)
DecodeTipPgd(c, d0) ==
  LET d == UpdateIp(d0, d0.pkt)
      k == First(d, TipB)
      ev == d.q[k].ev
      d1 == Drop(d, k)
      off == E("async_disabled", [at |-> ev.p.from, ip |-> W0])
  IN IF Idx(d, TipB) = {}
     THEN IF d.bound THEN More(d)
          ELSE EvFetch(c, [d EXCEPT !.en = FALSE],
                       AtTime(d, AtIp(d, E("disabled", [ip |-> W0]))))
     ELSE IF ev.t = "ignore" THEN DecodeTipPgd(c, d1)
     ELSE IF ev.t = "async_branch"
          THEN Ev([d1 EXCEPT !.en = FALSE, !.bound = TRUE],
                  AtTime(d, AtIp(d, off)))
     ELSE IF ev.t \in {"async_paging", "async_vmcs"} /\ ~d.bound
          THEN Fail(d1, "internal")
     ELSE Ev(d1, AtTime(d, NoIp(ev)))

DecodeTnt(c, d) ==
  IF ~d.en THEN Fail(d, "bad_context")
  ELSE Standalone(c, d, E("tnt", [n |-> d.pkt.n, bits |-> d.pkt.bits]))

-----------------------------------------------------------------------------
(* Overflow: tracing resumes at a FUP, if it resolves while tracing is     *)
(* enabled, or later at a TIP.PGE.                                         *)
RECURSIVE OvfFup(_, _)
\* [e, end]: the offset after the FUP that the overflow binds to; -1: none.
OvfFup(c, p) ==
  LET x == PktAt(c, p) IN
  IF x.err # "" THEN [e |-> x.err, end |-> -1]
  ELSE IF x.pkt.t = "fup" THEN [e |-> "", end |-> p + x.n]
  ELSE IF x.pkt.t \in {"unknown", "invalid", "pad", "mnt"} \/ IsTiming(x.pkt.t)
       THEN OvfFup(c, p + x.n)
  ELSE IF x.pkt.t \in {"psbend", "tip", "tip_pgd", "tnt_8", "tnt_64"}
       THEN [e |-> "bad_context", end |-> -1]
  ELSE [e |-> "", end |-> -1]

RECURSIVE HeaderFupAt(_, _)
\* The FUP in a PSB+ header: [e, v, pkt].
HeaderFupAt(c, p) ==
  LET x == PktAt(c, p) IN
  IF x.err # "" THEN [e |-> x.err, v |-> FALSE, pkt |-> Invalid]
  ELSE IF x.pkt.t = "fup" THEN [e |-> "", v |-> TRUE, pkt |-> x.pkt]
  ELSE IF x.pkt.t \in {"psbend", "ovf"}
       THEN [e |-> "", v |-> FALSE, pkt |-> Invalid]
  ELSE IF x.pkt.t \in {"mode_exec", "mode_tsx", "pip", "vmcs", "mnt", "pad",
                       "invalid"} \/ IsTiming(x.pkt.t)
       THEN HeaderFupAt(c, p + x.n)
  ELSE [e |-> "bad_context", v |-> FALSE, pkt |-> Invalid]

\* Continue at the packet x at offset p with the time r as of that packet.
At(d, p, x, r) == [d EXCEPT !.pos = p + x.n, !.pkt = x.pkt, !.psz = x.s,
                            !.tm = r.tm, !.tc = r.tc]
OvfEv == E("overflow", [ip |-> W0])

\* The erratum handlers answer More if the erratum does not apply.
OvfAtIp(d, ip, p, x, r) ==
  LET d1 == UpdateIp(d, ip)
  IN Ev([At(d1, p, x, r) EXCEPT !.en = TRUE], AtIp(d1, AtTime(d, OvfEv)))
OvfDisabled(c, d, p, x, r) ==
  Ev(Fetch(c, At(d, p, x, r)), AtTime(d, NoIp(OvfEv)))

AndFetch(c, r) == IF r.c = "ev" THEN [r EXCEPT !.d = Fetch(c, r.d)] ELSE r

\* Erratum SKD010: the FUP was dropped; find a later packet with an IP.
\* r: time so far, m: the MODE.TSX seen ([found, intx, abrt]).
RECURSIVE Skd010(_, _, _, _, _)
Skd010(c, d, p, r, m) ==
  LET x == PktAt(c, p)
      t == x.pkt.t
      next == p + x.n
      r1 == Apply(c, r.tm, r.tc, x.pkt, FALSE)
      h == HeaderFupAt(c, next)
      ev == E("tsx", [intx |-> m.intx, abrt |-> m.abrt, ip |-> W0])
      d1 == [d EXCEPT !.pkt = x.pkt, !.psz = x.s]
      d2 == IF m.found THEN Push(d1, {"fupb"}, ev) ELSE d1
  IN IF x.err # "" THEN IF x.err = "eos" THEN More(d) ELSE Fail(d, x.err)
     ELSE CASE t = "tip_pgd" -> OvfDisabled(c, d, p, x, r)
            [] t = "fup" -> OvfAtIp(d2, x.pkt, p, x, r)
            [] t = "tip" -> AndFetch(c, OvfAtIp(d, x.pkt, p, x, r))
            [] t = "psb" ->
                 IF h.e = "eos" THEN More(d)
                 ELSE IF h.e # "" THEN Fail(d, h.e)
                 ELSE IF h.v THEN OvfAtIp(d, h.pkt, p, x, r) ELSE More(d)
            [] t = "psbend" -> Fail(d, "bad_context")
            [] IsTiming(t) -> IF r1.e # "" THEN Fail(d, r1.e)
                              ELSE Skd010(c, d, next, r1, m)
            [] t = "mode_tsx" ->
                 IF m.found THEN More(d)
                 ELSE Skd010(c, d, next, r, [found |-> TRUE,
                                             intx |-> x.pkt.intx,
                                             abrt |-> x.pkt.abrt])
            [] t \in {"pip", "vmcs", "mode_exec", "pad", "mnt", "pwre",
                      "pwrx", "evd", "trig"} -> Skd010(c, d, next, r, m)
            [] t \in {"exstop", "ptw", "cfe"} ->
                 IF x.pkt.ip = 0 THEN Skd010(c, d, next, r, m) ELSE More(d)
            [] OTHER -> More(d)

\* Erratum APL11: an overflow followed by an extra TIP.PGD.
RECURSIVE Apl11(_, _, _, _)
Apl11(c, d, p, r) ==
  LET x == PktAt(c, p)
      t == x.pkt.t
      r1 == Apply(c, r.tm, r.tc, x.pkt, FALSE)
  IN IF x.err # "" THEN Fail(d, x.err)
     ELSE CASE t = "tip_pgd" -> OvfDisabled(c, d, p, x, r)
            [] IsTiming(t) -> IF r1.e # "" THEN Fail(d, r1.e)
                              ELSE Apl11(c, d, p + x.n, r1)
            [] t \in {"pad", "mnt", "cfe", "evd", "trig"} ->
                 Apl11(c, d, p + x.n, r)
            [] OTHER -> More(d)

\* Erratum APL12: an extra FUP after an overflow that resolved while tracing
\* was disabled.  [e, v]: whether the packets at p say so.
RECURSIVE Apl12(_, _)
Apl12(c, p) ==
  LET x == PktAt(c, p)
      t == x.pkt.t
      h == HeaderFupAt(c, p + x.n)
      no == [e |-> "", v |-> FALSE]
  IN IF x.err # "" THEN IF x.err = "eos" THEN no ELSE [e |-> x.err, v |-> FALSE]
     ELSE CASE t \in {"tnt_8", "tnt_64", "tip", "tip_pgd", "psbend", "ovf",
                      "unknown", "invalid"} -> no
            [] t \in {"stop", "tip_pge"} -> [e |-> "", v |-> TRUE]
            [] t = "psb" -> IF h.e = "eos" \/ h.v THEN no
                            ELSE IF h.e # "" THEN [e |-> h.e, v |-> FALSE]
                            ELSE [e |-> "", v |-> TRUE]
            [] OTHER -> Apl12(c, p + x.n)

\* Time as of offset q, skipping packets from p; the packet before q is read.
RECURSIVE SkipTo(_, _, _, _)
SkipTo(c, d, p, q) ==
  LET x == PktAt(c, p)
      r == Apply(c, d.tm, d.tc, x.pkt, FALSE)
      d1 == [d EXCEPT !.pos = p + x.n, !.pkt = x.pkt, !.psz = x.s]
  IN IF p + x.n = q THEN More(d1)
     ELSE IF IsTiming(x.pkt.t)
          THEN IF r.e # ""
               THEN Fail([d1 EXCEPT !.tm = r.tm, !.tc = r.tc], r.e)
               ELSE SkipTo(c, [d1 EXCEPT !.tm = r.tm, !.tc = r.tc],
                           p + x.n, q)
     ELSE IF x.pkt.t \in {"unknown", "invalid"} THEN Fail(d1, "internal")
     ELSE SkipTo(c, d1, p + x.n, q)

DecodeOvf(c, d0) ==
  LET pe == DecodePsbend(c, d0)
      d == [Reset(d0) EXCEPT !.tm = d0.tm,
                             !.tc = IF c.keep THEN CalOvf(d0.tc) ELSE Cal0]
      f == OvfFup(c, d.pos)
      t0 == [e |-> "", tm |-> d.tm, tc |-> d.tc]
      skd == IF c.skd010
             THEN Skd010(c, d, d.pos, t0,
                         [found |-> FALSE, intx |-> 0, abrt |-> 0])
             ELSE More(d)
      apl == IF c.apl11 /\ f.e = "bad_context" THEN Apl11(c, d, d.pos, t0)
             ELSE More(d)
      a12 == IF c.apl12 THEN Apl12(c, f.end) ELSE [e |-> "", v |-> FALSE]
      sk == SkipTo(c, d, d.pos, f.end)
  IN IF pe.c # "more" THEN pe
     ELSE IF f.end < 0
     THEN IF skd.c # "more" THEN skd
          ELSE IF apl.c # "more" THEN apl
          ELSE IF f.e # "" /\ f.e # "eos" THEN Fail(d, f.e)
          ELSE StandaloneNoIp(c, d, OvfEv)
     ELSE IF a12.e # "" THEN Fail(d, a12.e)
     ELSE IF a12.v
          THEN IF sk.c = "err" THEN sk ELSE StandaloneNoIp(c, sk.d, OvfEv)
     ELSE Queue(d, {"fupb"}, AtTime(d, OvfEv))

-----------------------------------------------------------------------------
RECURSIVE DecodePacket(_, _)
DecodePacket(c, d) ==
  LET p == d.pkt
      psb == DecodePsb(c, d)
  IN
  CASE p.t \in {"tnt_8", "tnt_64"} -> DecodeTnt(c, d)
    [] p.t \in {"pad", "unknown"} -> More(d)
    [] IsTiming(p.t) -> DecodeTime(c, d)
    [] p.t = "fup" -> DecodeFup(c, d)
    [] p.t = "tip" -> DecodeTip(c, d)
    [] p.t = "tip_pge" -> DecodeTipPge(c, d)
    [] p.t = "tip_pgd" -> DecodeTipPgd(c, d)
    [] p.t = "mode_exec" -> DecodeModeExec(c, d)
    [] p.t = "mode_tsx" -> DecodeModeTsx(c, d)
    [] p.t = "pip" -> DecodePip(c, d)
    [] p.t = "vmcs" -> DecodeVmcs(c, d)
    [] p.t = "ptw" -> DecodePtw(c, d)
    [] p.t = "exstop" -> DecodeExstop(c, d)
    [] p.t = "mwait" -> Queue(d, {"exstop"},
         E("mwait", [hints |-> p.hints, ext |-> p.ext, ip |-> W0]))
    [] p.t = "pwre" -> Standalone(c, d, E("pwre",
         [state |-> p.state, sub |-> p.sub_state, hw |-> p.hw]))
    [] p.t = "pwrx" -> Standalone(c, d, E("pwrx",
         [last |-> p.last, deepest |-> p.deepest, int |-> p.int,
          store |-> p.store, auto |-> p.auto]))
    [] p.t = "ovf" -> DecodeOvf(c, d)
    [] p.t = "stop" -> Standalone(c, d, E("stop", [z |-> 0]))
    [] p.t = "mnt" -> Standalone(c, d, E("mnt", [payload |-> p.payload]))
    [] p.t = "cfe" -> DecodeCfe(c, d)
    [] p.t = "evd" -> DecodeEvd(c, d)
    [] p.t = "trig" -> DecodeTrig(c, d)
    [] p.t = "psbend" -> DecodePsbend(c, d)
    [] p.t = "psb" -> IF psb.c = "more" THEN DecodePacket(c, psb.d) ELSE psb
    [] p.t = "invalid" -> IF d.st = "" THEN More(d) ELSE Fail(d, d.st)

\* The next event: [c, d, e, ev] with c "ev" or "err".
RECURSIVE NextEvent(_, _)
NextEvent(c, d) ==
  LET x == DecodePacket(c, d)
  IN IF x.c = "more" THEN NextEvent(c, Fetch(c, [x.d EXCEPT !.bound = FALSE]))
     ELSE x

-----------------------------------------------------------------------------
(* Synchronization: [e, d].                                                *)
Start(c, d) ==
  LET d1 == Fetch(c, [d EXCEPT !.st = ""])
      h == DecodePsb(c, d1)
  IN CASE d1.pkt.t = "psb" -> [e |-> IF h.c = "err" THEN h.e ELSE "",
                               d |-> h.d]
       [] d1.pkt.t = "invalid" ->
            [e |-> IF d1.st = "" THEN "internal" ELSE d1.st, d |-> d1]
       [] OTHER -> [e |-> "nosync", d |-> d1]

SyncAt(c, d, s) ==
  IF s < 0 \/ s > Len(c.buf) THEN [e |-> "eos", d |-> Reset(d)]
  ELSE Start(c, [Reset(d) EXCEPT !.pos = s, !.sync = s])

SyncForward(c, d) == SyncAt(c, d, Forward(c.buf, d.pos, d.sync))

\* The set of possible results: the first sync point before the position
\* whose PSB+ is complete and ends before the position.
RECURSIVE BackFrom(_, _, _, _)
BackFrom(c, d, p, limit) ==
  UNION {IF s < 0 THEN {[e |-> "eos", d |-> Reset([d EXCEPT !.pos = p])]}
         ELSE LET r == Start(c, [Reset(d) EXCEPT !.pos = s, !.sync = s])
              IN IF r.e = "eos" \/ (limit >= 0 /\ r.d.pos >= limit)
                 THEN BackFrom(c, r.d, s, limit)
                 ELSE {r} : s \in Backward(c.buf, p)}

\* Where the decoder's current packet begins.
Here(d) == IF d.pos < 0 THEN -1 ELSE d.pos - d.psz

\* A synchronized decoder does not find its own sync point again.
SyncBackward(c, d) == BackFrom(c, d, d.pos, d.pos)
=============================================================================
