---------------------------- MODULE QueryDecoder ----------------------------
(***************************************************************************)
(* The query layer: events interleaved with branch queries.                *)
(*                                                                         *)
(* The state is a record q:                                                *)
(*   d     the event decoder                                               *)
(*   st    the error that ended reading events ("" if none)                *)
(*   ev    the next event                                                  *)
(*   tnt   the taken/not-taken indicators that were not handed out yet,    *)
(*         oldest first                                                    *)
(*   lt    the time at the last event or branch                            *)
(* Results are [e, st, q] (plus ev, tk, ip): error, status flags, state.   *)
(***************************************************************************)
EXTENDS EventDecoder

PEvent == 1
PIps == 2
PEos == 4

LastEv == [NoEv EXCEPT !.t = "none"]
Qry0 == [d |-> Dec0, st |-> "nosync", ev |-> LastEv, tnt |-> << >>,
         lt |-> Time0]
QReset(q) == [Qry0 EXCEPT !.d = q.d, !.ev = q.ev]

IsPending(q) == q.ev.t \notin {"tnt", "tip"}
Flags(q) == IF q.tnt # << >> THEN 0
            ELSE IF q.st = "eos" THEN PEos
            ELSE IF IsPending(q) THEN PEvent ELSE 0

QFetch(c, q) ==
  LET x == NextEvent(c, q.d)
  IN IF x.c = "ev" THEN [q EXCEPT !.d = x.d, !.ev = x.ev]
     ELSE [q EXCEPT !.d = x.d, !.ev = LastEv, !.st = x.e]

Refuse(q, e) == [e |-> e, st |-> 0, q |-> q, ev |-> NoEv, tk |-> -1,
                 ip |-> W0]
Answer(q) == [Refuse(q, "") EXCEPT !.st = Flags(q)]

\* The bits of a TNT event, oldest first.
TntBits(ev) == [k \in 1..ev.p.n |-> WBit(ev.p.bits, ev.p.n - k)]

CacheTnt(c, q) ==
  IF q.st # "" THEN [e |-> q.st, q |-> q]
  ELSE IF q.ev.t # "tnt" THEN [e |-> "", q |-> q]
  ELSE IF Len(q.tnt) + q.ev.p.n > 64 THEN [e |-> "overflow", q |-> q]
  ELSE [e |-> "", q |-> QFetch(c, [q EXCEPT !.tnt = @ \o TntBits(q.ev)])]

Take(q) == [Answer([q EXCEPT !.tnt = Tail(@)]) EXCEPT !.tk = q.tnt[1]]

CondBranch(c, q) ==
  LET r == CacheTnt(c, [q EXCEPT !.lt = q.d.tm])
  IN IF q.tnt # << >> THEN Take(q)
     ELSE IF r.e # "" THEN Refuse(r.q, r.e)
     ELSE IF r.q.tnt # << >> THEN Take(r.q)
     ELSE Refuse(r.q, IF r.q.st # "" THEN r.q.st ELSE "bad_query")

IndirectBranch(c, q) ==
  LET r == IF q.ev.t = "tip" THEN [e |-> "", q |-> q] ELSE CacheTnt(c, q)
      n == QFetch(c, [r.q EXCEPT !.lt = r.q.d.tm])
      ips == r.q.ev.ips = 1
  IN IF q.st # "" THEN Refuse(q, q.st)
     ELSE IF r.e # "" THEN Refuse(r.q, r.e)
     ELSE IF r.q.ev.t # "tip"
          THEN Refuse(r.q, IF r.q.st # "" THEN r.q.st ELSE "bad_query")
     ELSE [Answer(n) EXCEPT !.st = @ + (IF ips THEN PIps ELSE 0),
                            !.ip = IF ips THEN W0 ELSE r.q.ev.p.ip]

QEvent(c, q) ==
  IF q.tnt # << >> THEN Refuse(q, "bad_query")
  ELSE IF q.st # "" THEN Refuse(q, q.st)
  ELSE IF ~IsPending(q) THEN Refuse(q, "bad_query")
  ELSE [Answer(QFetch(c, [q EXCEPT !.lt = q.d.tm])) EXCEPT !.ev = q.ev]

-----------------------------------------------------------------------------
(* The IP at which tracing starts is in the status update events.          *)
RECURSIVE StartIp(_, _, _)
StartIp(c, d, p) ==
  LET x == NextEvent(c, d)
      none == [e |-> "", v |-> FALSE, ip |-> W0]
  IN IF d.pos # p THEN none
     ELSE IF x.c = "err"
          THEN IF x.e = "eos" THEN none ELSE [none EXCEPT !.e = x.e]
     ELSE IF x.ev.su = 0 \/ x.ev.t = "disabled" THEN none
     ELSE IF x.ev.t = "enabled"
          THEN [e |-> "", v |-> TRUE,
                ip |-> IF x.ev.ips = 1 THEN W0 ELSE x.ev.p.ip]
     ELSE StartIp(c, x.d, p)

QStart(c, q) ==
  LET s == StartIp(c, q.d, q.d.pos)
      n == QFetch(c, [q EXCEPT !.st = ""])
  IN IF s.e # "" THEN Refuse(q, s.e)
     ELSE [Answer(n) EXCEPT !.st = @ + (IF s.v THEN 0 ELSE PIps),
                            !.ip = s.ip]

QSync(c, q, r) ==
  LET q1 == [QReset(q) EXCEPT !.d = r.d]
  IN IF r.e # "" THEN Refuse(q1, r.e) ELSE QStart(c, q1)

QForward(c, q) == QSync(c, q, SyncForward(c, q.d))
QAt(c, q, s) == QSync(c, q, SyncAt(c, q.d, s))

\* start: the decoder's position (-1: not synchronized).  A sync point whose
\* first event is only found at that position is not found again.
RECURSIVE QBackFrom(_, _, _, _)
QBackFrom(c, q, start, before) ==
  UNION {LET x == QSync(c, q, r)
             here == r.d.pos
         IN IF r.e # "" THEN {x}
            ELSE IF before >= 0 /\ before <= here
                 THEN QBackFrom(c, [q EXCEPT !.d = r.d], start, before)
            ELSE IF x.e = "eos" \/ (x.e = "" /\ start >= 0
                                    /\ x.q.d.pos >= start)
                 THEN QBackFrom(c, x.q, start, here)
            ELSE {x}
         : r \in SyncBackward(c, q.d)}
QBackward(c, q) == QBackFrom(c, q, q.d.pos, q.d.pos)
=============================================================================
