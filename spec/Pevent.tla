------------------------------- MODULE Pevent -------------------------------
(***************************************************************************)
(* Linux perf event records as perf_event_open(2) describes them, and the  *)
(* conversion between perf time and time stamp counts.                     *)
(*                                                                         *)
(* A record has a header, a body of fixed fields, for some types followed  *)
(* by a string, and samples, selected by the sample type of the stream.    *)
(* Configuration: c.st (the sample type), c.ids (sample types by           *)
(* identifier), c.has (which of the settings "st", "time" and "ids" there  *)
(* are), c.shift, c.mult, c.zero.                                          *)
(***************************************************************************)
EXTENDS Word

(***************************************************************************)
(* Record bodies: the sizes of the fields, in order.                       *)
(***************************************************************************)
MMAP == 1      LOST == 2        COMM == 3          EXIT == 4
THROTTLE == 5  UNTHROTTLE == 6  FORK == 7          MMAP2 == 10
AUX == 11      ITRACE == 12     LOST_SAMPLES == 13
SWITCH == 14   SWITCH_CPU == 15

Layout(t) ==
  CASE t = MMAP -> <<4, 4, 8, 8, 8>>     \* pid tid addr len pgoff
    [] t = LOST -> <<8, 8>>              \* id lost
    [] t = COMM -> <<4, 4>>              \* pid tid
    [] t \in {EXIT, FORK} -> <<4, 4, 4, 4, 8>>  \* pid ppid tid ptid time
    [] t \in {THROTTLE, UNTHROTTLE} -> <<8, 8, 8>>  \* time id stream_id
    [] t = MMAP2 -> <<4, 4, 8, 8, 8, 4, 4, 8, 8, 4, 4>>
       \* pid tid addr len pgoff maj min ino ino_generation prot flags
    [] t = AUX -> <<8, 8, 8>>            \* offset size flags
    [] t = ITRACE -> <<4, 4>>            \* pid tid
    [] t = LOST_SAMPLES -> <<8>>
    [] t = SWITCH_CPU -> <<4, 4>>        \* next_prev_pid next_prev_tid
    [] OTHER -> <<>>
TypeOf(w) == IF WFits(w, 30) THEN WToInt(w) ELSE 0
KnownType(t) == t \in 1..7 \cup 10..15
HasString(t) == t \in {MMAP, COMM, MMAP2}

(* Sample fields, in order: the bit in the sample type, and the sizes of   *)
(* what is there.                                                          *)
Samples == << [n |-> "tid",  b |-> 1,  w |-> <<4, 4>>],
              [n |-> "time", b |-> 2,  w |-> <<8>>],
              [n |-> "id",   b |-> 6,  w |-> <<8>>],
              [n |-> "sid",  b |-> 9,  w |-> <<8>>],
              [n |-> "cpu",  b |-> 7,  w |-> <<4, 4>>],
              [n |-> "ident", b |-> 16, w |-> <<8>>] >>
IDENT == 16

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

In(x, st) == WBit(st, x.b) = 1
Sampled(st) == SelectSeq(Samples, LAMBDA x : In(x, st))
RECURSIVE Widths(_)
Widths(xs) == IF xs = <<>> THEN <<>> ELSE Head(xs).w \o Widths(Tail(xs))
SampleSize(st) == Sum(Widths(Sampled(st)))

(***************************************************************************)
(* Time.  Time 0 is that of synthesized records.                           *)
(***************************************************************************)
TimeToTsc(c, t) ==
  IF t = W0 THEN [e |-> "", v |-> W0]
  ELSE IF "time" \notin c.has \/ c.mult = W0
  THEN [e |-> "bad_config", v |-> W0]
  ELSE LET x == WDivMod(WSub(t, c.zero), c.mult)
       IN [e |-> "", v |-> WAdd(WShl(x.q, c.shift),
                                WDiv(WShl(x.r, c.shift), c.mult))]

TscToTime(c, t) ==
  IF "time" \notin c.has \/ c.mult = W0
  THEN [e |-> "bad_config", v |-> W0]
  ELSE LET q == WShr(t, c.shift)
           r == WSub(t, WShl(q, c.shift))
       IN [e |-> "", v |-> WAdd(c.zero, WAdd(WMul(q, c.mult),
                                WShr(WMul(r, c.mult), c.shift)))]

(***************************************************************************)
(* Reading.  Words(bs, o, ws) are the values of the fields of sizes ws at  *)
(* offset o.                                                               *)
(***************************************************************************)
At(bs, o, n) == WBytes(SubSeq(bs, o + 1, o + n))
IAt(bs, o, n) == WToInt(At(bs, o, n))

RECURSIVE Words(_, _, _)
Words(bs, o, ws) ==
  IF ws = <<>> THEN <<>>
  ELSE <<At(bs, o, Head(ws))>> \o Words(bs, o + Head(ws), Tail(ws))

RECURSIVE StrEnd(_, _, _)
\* The offset of the first zero byte from o on, -1 if there is none below e.
StrEnd(bs, o, e) ==
  IF o >= e THEN -1
  ELSE IF e = o + 1 THEN IF bs[o + 1] = 0 THEN o ELSE -1
  ELSE LET m == (o + e) \div 2
           z == StrEnd(bs, o, m)
       IN IF z >= 0 THEN z ELSE StrEnd(bs, m, e)

Up8(n) == ((n + 7) \div 8) * 8

(* The sample type of a record: selected by the identifier, which is then  *)
(* at the record's very end.                                               *)
SampleType(c, ident) ==
  IF "st" \notin c.has THEN [e |-> "bad_config", v |-> W0]
  ELSE LET ks == {k \in DOMAIN c.ids : c.ids[k].id = ident[1]}
           k == CHOOSE x \in ks : \A y \in ks : x <= y
       IN IF "ids" \notin c.has \/ ident = <<>> \/ ks = {}
          THEN [e |-> "", v |-> c.st]
          ELSE IF WBit(c.ids[k].st, IDENT) = 0
          THEN [e |-> "bad_config", v |-> W0]
          ELSE [e |-> "", v |-> c.ids[k].st]

NoEvent == [type |-> W0, misc |-> 0, body |-> <<>>, str |-> <<>>,
            samples |-> <<>>, has |-> <<>>, tsc |-> W0]
(* What a read may return: the error, one of errs, or n bytes with ev. *)
Refuse(errs) == [errs |-> errs, n |-> 0, ev |-> NoEvent]
Malformed == {"nosync", "bad_packet", "internal", "eos"} 

Names(xs) == [k \in DOMAIN xs |-> xs[k].n]
\* The unused half of the cpu sample is not shown.
RECURSIVE Vals(_, _, _)
Vals(bs, o, xs) ==
  IF xs = <<>> THEN <<>>
  ELSE LET x == Head(xs)
       IN (IF x.n = "cpu" THEN <<At(bs, o, 4)>> ELSE Words(bs, o, x.w)) \o
          Vals(bs, o + Sum(x.w), Tail(xs))

ReadSamples(c, bs, o, end, ev) ==
  LET st == SampleType(c, IF end - 8 >= o THEN <<At(bs, end - 8, 8)>>
                          ELSE <<>>)
      xs == Sampled(st.v)
      before == SelectSeq(xs, LAMBDA x : x.n = "tid")
      timed == In(Samples[2], st.v)
      to == o + Sum(Widths(before))
      t == TimeToTsc(c, At(bs, to, 8))
  IN IF st.e # "" THEN Refuse({st.e})
     ELSE IF o + SampleSize(st.v) # end
     THEN Refuse(Malformed \cup {"bad_config"})
     ELSE IF timed /\ t.e # "" THEN Refuse({t.e})
     ELSE [errs |-> {}, n |-> end,
           ev |-> [ev EXCEPT !.has = Names(xs), !.samples = Vals(bs, o, xs),
                             !.tsc = IF timed THEN t.v ELSE W0]]

Read(c, bs) ==
  LET n == Len(bs)
      t == TypeOf(At(bs, 0, 4))
      size == IAt(bs, 6, 2)
      o == 8 + Sum(Layout(t))
      z == StrEnd(bs, o, size)
      ev == [NoEvent EXCEPT !.type = At(bs, 0, 4), !.misc = IAt(bs, 4, 2)]
  IN IF n < 8 THEN Refuse({"eos"})
     ELSE IF size < 8 THEN Refuse({"nosync"})
     ELSE IF At(bs, 0, 4) = W0 \/ n < size THEN Refuse({"eos"})
     ELSE IF ~KnownType(t) THEN [errs |-> {}, n |-> size, ev |-> ev]
     ELSE LET b == [ev EXCEPT !.body = Words(bs, 8, Layout(t))]
          IN IF HasString(t)
             THEN IF o > size THEN Refuse(Malformed)
                  ELSE IF z < 0 THEN Refuse({"bad_packet"})
                  ELSE ReadSamples(c, bs, o + Up8(z - o + 1), size,
                         [b EXCEPT !.str = SubSeq(bs, o + 1, z)])
             ELSE IF o > size THEN Refuse(Malformed \cup {"bad_config"})
             ELSE ReadSamples(c, bs, o, size, b)

(***************************************************************************)
(* Writing: ev with the samples ev.has, in a room of so many bytes.        *)
(***************************************************************************)
RECURSIVE Enc(_, _)
Enc(vs, ws) == IF ws = <<>> THEN <<>>
               ELSE WLow(Head(vs), Head(ws)) \o Enc(Tail(vs), Tail(ws))

Zeros(n) == [k \in 1..n |-> 0]
Has(ev, x) == \E k \in DOMAIN ev.has : ev.has[k] = x.n
EvType(ev) == LET Bits[k \in 0..Len(Samples)] ==
                    IF k = 0 THEN W0
                    ELSE IF Has(ev, Samples[k])
                    THEN WOr(Bits[k - 1], WPow2(Samples[k].b))
                    ELSE Bits[k - 1]
              IN Bits[Len(Samples)]

(* The bytes of a record; the value of those that are not used is free.    *)
Encode(ev) ==
  LET xs == Sampled(EvType(ev))
      ws == Widths(xs)
      vs == IF \E k \in DOMAIN ev.has : ev.has[k] = "cpu"
            THEN LET k == Len(Widths(SelectSeq(xs, LAMBDA x :
                              x.n \notin {"cpu", "ident"}))) + 1
                 IN SubSeq(ev.samples, 1, k) \o <<W0>> \o
                    SubSeq(ev.samples, k + 1, Len(ev.samples))
            ELSE ev.samples
      s == IF HasString(TypeOf(ev.type))
           THEN ev.str \o Zeros(Up8(Len(ev.str) + 1) - Len(ev.str)) ELSE <<>>
      rest == Enc(ev.body, Layout(TypeOf(ev.type))) \o s \o Enc(vs, ws)
      size == 8 + Len(rest)
  IN WLow(ev.type, 4) \o WLow(WInt(ev.misc), 2) \o
     WLow(WInt(size), 2) \o rest

(* Where the unused half of the cpu sample is. *)
Unused(ev) ==
  LET xs == Sampled(EvType(ev))
      tail == IF \E k \in DOMAIN ev.has : ev.has[k] = "ident" THEN 8 ELSE 0
      n == Len(Encode(ev))
  IN IF \E k \in DOMAIN ev.has : ev.has[k] = "cpu"
     THEN (n - tail - 3)..(n - tail) ELSE {}

IdentOf(ev) == IF \E k \in DOMAIN ev.has : ev.has[k] = "ident"
               THEN <<ev.samples[Len(ev.samples)]>> ELSE <<>>

(* The errors a write may return; {} if it has to succeed. *)
WriteErrs(c, ev, room) ==
  LET n == Len(Encode(ev))
      st == SampleType(c, IdentOf(ev))
      cfg == IF st.e # "" THEN {st.e}
             ELSE IF st.v # EvType(ev) THEN {"bad_config"} ELSE {}
  IN IF ~KnownType(TypeOf(ev.type)) THEN {"bad_opc"}
     ELSE IF n >= 65536 THEN {"bad_packet", "eos"}
     ELSE IF n > room THEN {"eos"} \cup cfg
     ELSE cfg
=============================================================================
