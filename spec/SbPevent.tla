------------------------------ MODULE SbPevent ------------------------------
(***************************************************************************)
(* Linux perf event sideband: which process runs on the traced cpu, and    *)
(* what its memory looks like.                                             *)
(*                                                                         *)
(* The world w has                                                         *)
(*   chs    the channels: their bytes, offset in their file, sample        *)
(*          configuration, prim, kernel start, time offset, system root    *)
(*          and vdso files                                                 *)
(*   files  the files that can be mapped: name, size, first bytes          *)
(*   mode   what the error notifier does: "none" there is none, "go" it    *)
(*          ignores errors, "stop" errors are fatal                        *)
(*   sw, swfail  there is a switch notifier; the call that it fails        *)
(* The state s has                                                         *)
(*   ctxs   the process images so far; proc maps a process to its current  *)
(*          one; kern the kernel's mappings                                *)
(*   dec    the decoders: the record they are at, the image they use, the  *)
(*          one they are about to use, and where the trace is              *)
(*   img    the image used for decoding, 0 if it has not been chosen       *)
(*   notes  what has been notified                                         *)
(*   out    the records that have been printed                             *)
(***************************************************************************)
EXTENDS Pevent, Image

NoDec == [s |-> "none", next |-> 0, cur |-> -1, ev |-> NoEvent, tsc |-> W0,
          ctx |-> 0, nctx |-> 0, loc |-> "unknown"]
SbStart(n) == [ctxs |-> <<>>, proc |-> <<>>, kern |-> {}, img |-> 0,
               dec |-> [d \in 1..n |-> NoDec], notes |-> <<>>, out |-> <<>>,
               nsw |-> 0]

Ok(s) == [s |-> s, e |-> {}]
Err(s, errs) == [s |-> s, e |-> errs]

(***************************************************************************)
(* Files and mappings.                                                     *)
(***************************************************************************)
FileByte(w, f, o) ==
  IF o < Len(w.files[f].hdr) THEN w.files[f].hdr[o + 1]
  ELSE (f * 101 + o * 7 + (o \div 256) * 13) % 256

Named(w, name) == {f \in DOMAIN w.files : w.files[f].name = name}

(* The kind of program in a file. *)
Abi(x) ==
  LET h == x.hdr
      n == Len(h)
  IN IF x.size < 16 \/ n < 16 \/ SubSeq(h, 1, 4) # <<127, 69, 76, 70>>
        \/ h[7] # 1
     THEN "unknown"
     ELSE IF h[5] = 2 THEN "x64"
     ELSE IF h[5] = 1 /\ x.size >= 52 /\ n >= 20
     THEN CASE h[19] = 3 /\ h[20] = 0 -> "ia32"
            [] h[19] = 62 /\ h[20] = 0 -> "x32"
            [] OTHER -> "unknown"
     ELSE "unknown"

AnyAs == [cr |-> Any, vm |-> Any]
MapFile(w, segs, f, off, len, addr) ==
  AddSeg(segs, Segment(Section(f, off, len, w.files[f].size), AnyAs, addr, 0))

(***************************************************************************)
(* Processes.                                                              *)
(***************************************************************************)
Find(s, pid) == IF pid \in DOMAIN s.proc THEN s.proc[pid] ELSE 0
Remove(s, pid) ==
  [s EXCEPT !.proc = [p \in DOMAIN @ \ {pid} |-> @[p]]]
Get(s, pid) ==
  IF Find(s, pid) # 0 THEN s
  ELSE [s EXCEPT !.ctxs = Append(@, [img |-> s.kern, abi |-> "unknown"]),
                 !.proc = [p \in DOMAIN @ \cup {pid} |->
                              IF p = pid THEN Len(s.ctxs) + 1 ELSE @[p]]]
Renew(s, pid) == Get(Remove(s, pid), pid)

(***************************************************************************)
(* Notifications.                                                          *)
(***************************************************************************)
Note(w, s, d, errs) ==
  IF w.mode = "none" THEN s
  ELSE [s EXCEPT !.notes = Append(@, [k |-> "err", errs |-> errs, d |-> d,
                                off |-> w.chs[d].off + s.dec[d].cur])]
(* An error ends the decoder only if the user says so. *)
Drop(w, s, d, r) ==
  IF r.e = {} THEN r.s
  ELSE IF r.e = {"end"} THEN [r.s EXCEPT !.dec[d].s = "gone"]
  ELSE LET t == Note(w, r.s, d, r.e)
       IN IF w.mode = "stop" THEN [t EXCEPT !.dec[d].s = "gone"] ELSE t

(***************************************************************************)
(* Switching between processes.  The switch is made known at once, but     *)
(* done when the trace is in the kernel.                                   *)
(***************************************************************************)
Switch(w, s, d) ==
  LET n == s.nsw + 1
      x == s.dec[d].nctx
      t == [s EXCEPT !.nsw = n, !.notes = IF w.sw THEN
              Append(@, [k |-> "sw", ctx |-> x, proc |-> s.proc]) ELSE @]
  IN IF w.sw /\ n = w.swfail THEN Err(t, {"bad_context"})
     ELSE Ok([t EXCEPT !.img = x, !.dec[d].ctx = x, !.dec[d].nctx = 0])

Prepare(s, d, x) ==
  [s EXCEPT !.dec[d].nctx = IF s.dec[d].nctx # x /\ s.dec[d].ctx = x
                            THEN 0 ELSE x]
PrepareTo(s, d, pid) ==
  LET t == Get(s, pid) IN Prepare(t, d, Find(t, pid))

(***************************************************************************)
(* Records.                                                                *)
(***************************************************************************)
F(ev, k) == ev.body[k]
MiscBit(ev, b) == (ev.misc \div 2^b) % 2 = 1
SamplePid(ev) == IF \E k \in DOMAIN ev.has : ev.has[k] = "tid"
                 THEN <<ev.samples[1]>> ELSE <<>>

Fork(s, ev) ==
  LET pid == F(ev, 1)  ppid == F(ev, 2)
      t == Renew(s, pid)
      par == Find(t, ppid)
  IN IF pid = ppid THEN Ok(s)
     ELSE IF F(ev, 3) # pid THEN Err(s, {"internal", "bad_packet"})
     ELSE IF par = 0 THEN Ok(t)
     ELSE Ok([t EXCEPT !.ctxs[Find(t, pid)].img =
                AddAll(@, t.ctxs[par].img)])

Exec(w, s, d, ev) ==
  LET t == Renew(s, F(ev, 1))
  IN Ok(IF w.chs[d].prim THEN Prepare(t, d, Find(t, F(ev, 1))) ELSE t)

Itrace(w, s, d, ev) ==
  LET t == PrepareTo(s, d, F(ev, 1))
  IN IF t.dec[d].nctx = 0 THEN Ok(t) ELSE Switch(w, t, d)

VDSO == <<91, 118, 100, 115, 111, 93>>           \* [vdso]
ANON == <<47, 47, 97, 110, 111, 110>>            \* //anon
DELETED == <<32, 40, 100, 101, 108, 101, 116, 101, 100, 41>>
Contains(str, x) ==
  \E k \in 1..(Len(str) - Len(x) + 1) : SubSeq(str, k, k + Len(x) - 1) = x

\* Paths have at most PathMax bytes.
PathMax == 4095

Map(w, s, d, ev) ==
  LET ch == w.chs[d]
      t == Get(s, F(ev, 1))
      x == Find(t, F(ev, 1))
      str == ev.str
      vdso == CASE t.ctxs[x].abi = "x64" -> ch.x64
                [] t.ctxs[x].abi = "x32" -> ch.x32
                [] t.ctxs[x].abi = "ia32" -> ch.ia32
                [] OTHER -> <<>>
      special == \/ str # <<>> /\ str[1] = 91 /\ str # VDSO
                 \/ str = ANON \/ Contains(str, DELETED)
      path == IF str = VDSO THEN vdso
              ELSE IF ch.root # <<>> THEN <<ch.root[1] \o str>>
              ELSE <<str>>
      fs == Named(w, path[1])
      f == CHOOSE y \in fs : TRUE
      off == WToInt(F(ev, 5))
      abi == IF t.ctxs[x].abi = "unknown" THEN Abi(w.files[f])
             ELSE t.ctxs[x].abi
      u == [t EXCEPT !.ctxs[x].abi = abi]
  IN IF special THEN Ok(Note(w, t, d, {"section_lost"}))
     ELSE IF path = <<>> THEN Err(t, {"bad_config"})
     ELSE IF fs = {}
     THEN Err(t, {"bad_file"} \cup
                 IF Len(path[1]) > PathMax THEN {"overflow"} ELSE {})
     ELSE IF off >= w.files[f].size THEN Err(u, {"invalid"})
     ELSE Ok([u EXCEPT !.ctxs[x].img =
                MapFile(w, @, f, off, WToInt(F(ev, 4)), WToInt(F(ev, 3)))])

ApplyRecord(w, s, d) ==
  LET ev == s.dec[d].ev
      t == TypeOf(ev.type)
      prim == w.chs[d].prim
      pid == SamplePid(ev)
  IN CASE t = ITRACE /\ prim -> Itrace(w, s, d, ev)
       [] t = FORK -> Fork(s, ev)
       [] t = COMM /\ MiscBit(ev, 13) -> Exec(w, s, d, ev)
       [] t = SWITCH /\ prim /\ ~MiscBit(ev, 13) ->
            IF pid = <<>> THEN Err(s, {"bad_config"})
            ELSE Ok(PrepareTo(s, d, pid[1]))
       [] t = SWITCH_CPU /\ prim ->
            IF MiscBit(ev, 13) THEN Ok(PrepareTo(s, d, F(ev, 1)))
            ELSE IF pid = <<>> THEN Ok(s)
            ELSE Ok(PrepareTo(s, d, pid[1]))
       [] t \in {MMAP, MMAP2} /\ ev.misc % 8 # 1 -> Map(w, s, d, ev)
       [] t = LOST -> Ok(Note(w, s, d, {"lost"}))
       [] t = AUX /\ prim /\ WBit(F(ev, 3), 0) = 1 ->
            Ok(Note(w, s, d, {"trace_lost"}))
       [] OTHER -> Ok(s)

(***************************************************************************)
(* Where the trace is.                                                     *)
(***************************************************************************)
Loc(ch, ip) == IF WLT(ip, ch.kernel) THEN "user" ELSE "kernel"
Other(loc) == CASE loc \in {"kernel", "likely kernel"} -> "likely user"
                [] loc \in {"user", "likely user"} -> "likely kernel"
                [] OTHER -> "unknown"
IpEvents == {"overflow", "exec_mode", "tsx", "exstop", "mwait", "ptwrite",
             "tick", "iflags", "interrupt", "iret", "smi", "rsm", "init",
             "vmentry", "vmexit", "shutdown", "uintr", "uiret"}
LocAfter(ch, loc, e) ==
  CASE e.ty \in {"enabled", "async_branch", "tip"} -> Loc(ch, e.ip)
    [] e.ty = "disabled" -> IF e.sup THEN Other(loc) ELSE Loc(ch, e.ip)
    [] e.ty = "async_disabled" ->
         IF e.sup THEN Other(Loc(ch, e.at)) ELSE Loc(ch, e.ip)
    [] e.ty = "paging" -> "likely kernel"
    [] e.ty = "async_paging" ->
         IF e.sup THEN "likely kernel" ELSE Loc(ch, e.ip)
    [] e.ty \in IpEvents -> IF e.sup THEN "unknown" ELSE Loc(ch, e.ip)
    [] OTHER -> "unknown"

(***************************************************************************)
(* Fetching and applying in the order of time.                             *)
(***************************************************************************)
(* Records apply earlier by the offset; times do not wrap around. *)
Shift(tsc, off) ==
  IF WBit(off, 63) = 0 THEN IF WLE(off, tsc) THEN WSub(tsc, off) ELSE W0
  ELSE LET n == WNeg(off)
       IN IF WLE(tsc, WSub(WMax, n)) THEN WAdd(tsc, n) ELSE WMax

Timed(ev) == \E k \in DOMAIN ev.has : ev.has[k] = "time"

Fetch(w, s, d, end) ==
  LET ch == w.chs[d]
      o == s.dec[d].next
      r == Read(ch.cfg, SubSeq(ch.bs, o + 1, Len(ch.bs)))
      t == [s EXCEPT !.dec[d].cur = o]
  IN IF r.errs = {"eos"} THEN [t EXCEPT !.dec[d].s = end]
     ELSE IF r.errs # {}
     THEN [Note(w, t, d, r.errs) EXCEPT !.dec[d].s = "gone"]
     ELSE [t EXCEPT !.dec[d].s = "active", !.dec[d].ev = r.ev,
                    !.dec[d].next = o + r.n,
                    !.dec[d].tsc = IF Timed(r.ev) THEN Shift(r.ev.tsc, ch.toff)
                                   ELSE W0]

RECURSIVE FetchAll(_, _, _)
FetchAll(w, s, ds) ==
  IF ds = {} THEN s
  ELSE LET d == CHOOSE x \in ds : TRUE
       IN FetchAll(w, Fetch(w, s, d, "gone"), ds \ {d})
InState(s, st) == {d \in DOMAIN s.dec : s.dec[d].s = st}

(***************************************************************************)
(* Printing a record.  There are flags for the file name, the offset in    *)
(* the file, the time, and for two forms of showing the record.            *)
(***************************************************************************)
COMPACT == 0    VERBOSE == 1    NAME == 2    OFFSET == 3    TSC == 4
Flag(fl, b) == (fl \div 2^b) % 2 = 1

TypeName(ev) ==
  LET t == TypeOf(ev.type)
      InOut == IF MiscBit(ev, 13) THEN ".OUT" ELSE ".IN"
  IN CASE t = MMAP -> "MMAP"
       [] t = LOST -> "LOST"
       [] t = COMM -> "COMM" \o IF MiscBit(ev, 13) THEN ".EXEC" ELSE ""
       [] t = EXIT -> "EXIT"
       [] t = THROTTLE -> "THROTTLE"
       [] t = UNTHROTTLE -> "UNTHROTTLE"
       [] t = FORK -> "FORK"
       [] t = MMAP2 -> "MMAP2"
       [] t = AUX -> "AUX" \o IF WBit(F(ev, 3), 0) = 1 THEN ".TRUNCATED"
                              ELSE ""
       [] t = ITRACE -> "ITRACE_START"
       [] t = LOST_SAMPLES -> "LOST_SAMPLES"
       [] t = SWITCH -> "SWITCH" \o InOut
       [] t = SWITCH_CPU -> "SWITCH_CPU_WIDE" \o InOut
       [] OTHER -> ""

\* The names of a record's fields, and the order in which they are listed.
Keys(ev) ==
  LET t == TypeOf(ev.type)
      x == IF MiscBit(ev, 13) THEN "next " ELSE "prev "
      map == <<"pid", "tid", "addr", "len", "pgoff">>
  IN CASE t = MMAP -> map
       [] t = LOST -> <<"id", "lost">>
       [] t \in {COMM, ITRACE} -> <<"pid", "tid">>
       [] t \in {EXIT, FORK} -> <<"pid", "ppid", "tid", "ptid", "time">>
       [] t \in {THROTTLE, UNTHROTTLE} -> <<"time", "id", "stream_id">>
       [] t = MMAP2 -> map \o <<"maj", "min", "ino", "ino_generation", "prot",
                                "flags">>
       [] t = AUX -> <<"aux offset", "aux size", "flags">>
       [] t = LOST_SAMPLES -> <<"lost">>
       [] t = SWITCH_CPU -> <<x \o "pid", x \o "tid">>
       [] OTHER -> <<>>
Listed(ev) == IF TypeOf(ev.type) \in {EXIT, FORK} THEN <<1, 3, 2, 4, 5>>
              ELSE [k \in DOMAIN ev.body |-> k]

SampleKeys == <<"pid", "tid", "time", "id", "cpu", "stream id", "identifier">>
\* Where the values of a sample are among the samples.
SampleAt(ev, n) ==
  LET k == CHOOSE x \in DOMAIN ev.has : ev.has[x] = n
  IN k + IF n # "tid" /\ ev.has[1] = "tid" THEN 1 ELSE 0
SampleVal(ev, key) ==
  LET n == CASE key \in {"pid", "tid"} -> "tid"
             [] key = "stream id" -> "sid"
             [] key = "identifier" -> "ident"
             [] OTHER -> key
  IN IF \A x \in DOMAIN ev.has : ev.has[x] # n THEN <<>>
     ELSE <<ev.samples[SampleAt(ev, n) + IF key = "tid" THEN 1 ELSE 0]>>
RECURSIVE ShownSamples(_, _)
ShownSamples(ev, k) ==
  IF k > Len(SampleKeys) THEN <<>>
  ELSE LET v == SampleVal(ev, SampleKeys[k])
       IN (IF v = <<>> THEN <<>> ELSE << <<SampleKeys[k], v[1]>> >>)
          \o ShownSamples(ev, k + 1)

Printed(w, s, d, fl) ==
  LET ev == s.dec[d].ev
      any == Flag(fl, COMPACT) \/ Flag(fl, VERBOSE)
      o == Listed(ev)
      body == IF KnownType(TypeOf(ev.type))
              THEN [k \in DOMAIN ev.body |-> <<Keys(ev)[k], ev.body[k]>>]
              ELSE << <<"type", ev.type>>, <<"misc", WInt(ev.misc)>> >>
      ss == ShownSamples(ev, 1)
      Only(q) == [k \in DOMAIN q |-> q[k][2]]
  IN [d |-> IF Flag(fl, NAME) THEN <<d>> ELSE <<>>,
      off |-> IF Flag(fl, OFFSET) THEN <<w.chs[d].off + s.dec[d].cur>>
              ELSE <<>>,
      tsc |-> IF Flag(fl, TSC) /\ Timed(ev) THEN <<s.dec[d].tsc>> ELSE <<>>,
      name |-> IF any THEN TypeName(ev) ELSE "",
      str |-> IF any THEN ev.str ELSE <<>>,
      vals |-> IF Flag(fl, COMPACT)
               THEN IF ev.body = <<>> THEN Only(body)
                    ELSE [k \in DOMAIN o |-> ev.body[o[k]]]
               ELSE <<>>,
      ss |-> IF Flag(fl, COMPACT) THEN Only(ss) ELSE <<>>,
      named |-> IF Flag(fl, VERBOSE) THEN body \o ss ELSE <<>>]
Put(w, s, d, fl) ==
  IF fl <= 0 THEN s ELSE [s EXCEPT !.out = Append(@, Printed(w, s, d, fl))]

Due(s, tsc) == {d \in InState(s, "active") : WLE(s.dec[d].tsc, tsc)}
Earliest(s, ds) ==
  CHOOSE x \in ds : \A y \in ds : WLE(s.dec[x].tsc, s.dec[y].tsc)

RECURSIVE RunDue(_, _, _, _)
RunDue(w, s, tsc, fl) ==
  LET due == Due(s, tsc)
      d == Earliest(s, due)
      p == Put(w, s, d, fl)
      t == Drop(w, p, d, ApplyRecord(w, p, d))
  IN IF due = {} THEN s
     ELSE RunDue(w, IF t.dec[d].s = "gone" THEN t
                    ELSE Fetch(w, t, d, "retired"), tsc, fl)

\* Records that are dumped are not applied.
RECURSIVE DumpDue(_, _, _, _)
DumpDue(w, s, tsc, fl) ==
  LET due == Due(s, tsc)
      d == Earliest(s, due)
  IN IF due = {} THEN s
     ELSE DumpDue(w, Fetch(w, Put(w, s, d, fl), d, "gone"), tsc, fl)

InKernel == {"kernel", "likely kernel", "unknown"}
Present(w, s, d, e) ==
  LET old == s.dec[d].loc
      new == LocAfter(w.chs[d], old, e)
      t == [s EXCEPT !.dec[d].loc = new]
  IN IF t.dec[d].nctx = 0
     THEN IF t.dec[d].s = "retired" THEN Err(t, {"end"}) ELSE Ok(t)
     ELSE IF old \in InKernel \/ new \in InKernel THEN Switch(w, t, d)
     ELSE Ok(t)

RECURSIVE PresentAll(_, _, _, _)
PresentAll(w, s, ds, e) ==
  IF ds = {} THEN s
  ELSE LET d == CHOOSE x \in ds : TRUE
       IN PresentAll(w, Drop(w, s, d, Present(w, s, d, e)), ds \ {d}, e)

Quiet(s) == [s EXCEPT !.notes = <<>>, !.out = <<>>]
Event(w, s, e, fl) ==
  LET t == RunDue(w, Quiet(s), e.tsc, fl)
  IN PresentAll(w, t, InState(t, "active") \cup InState(t, "retired"), e)

Dump(w, s, tsc, fl) == DumpDue(w, Quiet(s), tsc, fl)
Init1(w, s) ==
  FetchAll(w, Quiet(s), InState(s, "waiting"))

(***************************************************************************)
(* What can be read at an address of image x: the bytes, <<>> if nothing.  *)
(***************************************************************************)
Segs(s, x) == IF x = 0 THEN {} ELSE s.ctxs[x].img
Peek(w, segs, a, n) ==
  LET hit == Covers(segs, AnyAs, a)
      g == CHOOSE x \in hit : TRUE
  IN IF hit = {} THEN <<>>
     ELSE [k \in 1..Min(n, g.e - a) |->
             FileByte(w, g.s.f, g.s.off + g.o + (a - g.b) + k - 1)]
=============================================================================
