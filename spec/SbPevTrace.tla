----------------------------- MODULE SbPevTrace -----------------------------
(***************************************************************************)
(* Recorded perf event sideband sessions are behaviours of SbPevent: i is  *)
(* the line, k the number of operations done, s the state.                 *)
(***************************************************************************)
EXTENDS SbPevent, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, k, s
tvars == <<i, k, s>>

SeqSet(q) == {q[x] : x \in DOMAIN q}
World(t) ==
  [chs |-> [d \in DOMAIN t.chs |->
      LET c == t.chs[d]
      IN [c EXCEPT !.prim = (@ = 1), !.cfg.has = SeqSet(@)]],
   files |-> t.files, mode |-> t.mode, sw |-> t.sw = 1,
   swfail |-> t.swfail]
Ws == [x \in DOMAIN Trace |-> World(Trace[x])]
w == Ws[i]

Ops == Trace[i].ops
Pids == Trace[i].pids
Probes == Trace[i].probes

\* The processes of which x is the current image.
Owners(proc, x) == {p \in SeqSet(Pids) : p \in DOMAIN proc /\ proc[p] = x}

NoteIs(n, r) ==
  IF n.k = "sw" THEN r.k = "sw" /\ SeqSet(r.pids) = Owners(n.proc, n.ctx)
  ELSE r.k = "err" /\ r.e \in n.errs /\ r.d = n.d /\ r.off = n.off
\* A fatal error may be reported again by those who pass it on.
Once(r) == SelectSeq([x \in DOMAIN r |-> <<r[x], x>>],
                     LAMBDA y : y[1].k = "sw" \/ y[2] = 1
                                \/ r[y[2] - 1] # y[1])
NotesAre(t, r) ==
  LET o == Once(r)
  IN /\ Len(t.notes) = Len(o)
     /\ \A x \in DOMAIN o : NoteIs(t.notes[x], o[x][1])

Shows(segs, p) ==
  /\ Len(p) = Len(Probes)
  /\ \A x \in DOMAIN p : p[x] = Peek(w, segs, Probes[x], 8)

ImageIs(t, o) ==
  /\ o.sel = (IF t.img = 0 THEN 0 ELSE 1)
  /\ SeqSet(o.im) = (IF t.img = 0 THEN {} ELSE Owners(t.proc, t.img))
  /\ Shows(Segs(t, t.img), o.p)

\* A process that is not known has the kernel's mappings only.
FindIs(t, o) ==
  LET x == Find(t, o.pid)
      segs == IF x = 0 THEN t.kern ELSE Segs(t, x)
  IN IF o.found = 1 THEN Shows(segs, o.p)
     ELSE x = 0 \/ (segs = t.kern /\ t.img # x)

Alloc(t, o) ==
  LET bad == w.chs[o.d].bad
  IN IF o.e = "" THEN IF bad # "" THEN {} ELSE {[t EXCEPT !.dec[o.d].s = "waiting"]}
     ELSE IF o.e = bad \/ (o.e = "nomem" /\ o.oom = 1) THEN {t} ELSE {}

Results(t, o) ==
  CASE o.k = "kern" ->
         {[t EXCEPT !.kern = MapFile(w, @, o.f, o.off, o.len, o.a)]}
    [] o.k = "alloc" -> Alloc(t, o)
    [] o.k = "init" -> {x \in {Init1(w, t)} : o.e = "" /\ NotesAre(x, o.notes)}
    [] o.k = "event" ->
         {x \in {Event(w, t, [ty |-> o.ty, tsc |-> o.t, ip |-> o.ip,
                              sup |-> o.sup = 1, at |-> o.at], o.pf)} :
            /\ o.e = "" /\ NotesAre(x, o.notes) /\ ImageIs(x, o)
            /\ x.out = o.out}
    [] o.k = "dump" ->
         {x \in {Dump(w, t, o.t, o.pf)} :
            /\ o.e = "" /\ NotesAre(x, o.notes) /\ x.out = o.out}
    [] o.k = "find" -> {x \in {t} : o.e = "" /\ FindIs(x, o)}
    [] o.k = "get" -> {x \in {Get(t, o.pid)} :
                         o.e = "" /\ Shows(Segs(x, Find(x, o.pid)), o.p)}
    [] o.k = "rm" -> {x \in {Remove(t, o.pid)} : o.e = ""}
    [] o.k = "free" -> {x \in {t} : o.mem = 0}

TraceInit ==
  /\ i \in 1..Len(Trace)
  /\ k = 0
  /\ s = SbStart(Len(Trace[i].chs))
TraceNext ==
  \/ /\ k < Len(Ops)
     /\ s' \in Results(s, Ops[k + 1])
     /\ k' = k + 1 /\ UNCHANGED i
  \/ k = Len(Ops) /\ UNCHANGED tvars
=============================================================================
