------------------------------ MODULE FlowPath ------------------------------
(***************************************************************************)
(* What a flow decoder may report, whatever the trace: a path through the  *)
(* memory image.                                                           *)
(*                                                                         *)
(* The state is what a user knows from the reports so far:                 *)
(*   en    "start" (just synchronized), "yes", or "no": tracing enabled    *)
(*         last  where tracing would be resumed once it was disabled       *)
(*   any   where execution goes on is up to the trace                      *)
(*   at    otherwise, the addresses at which it may go on                  *)
(*   mode  the execution mode, 0 if not known;  spec: in a transaction     *)
(*   cr3, vmcs  the address space                                          *)
(* An instruction is reported only while tracing is enabled, at an address *)
(* at which execution may go on, with the bytes that the image of this     *)
(* address space has there, the size and class that these bytes have, and  *)
(* the mode and transaction state that events told.  A block is a number   *)
(* of such instructions without a branch that needs trace in between.      *)
(* Events enable and disable tracing in turn, happen where execution is,   *)
(* and tell where it goes on.                                              *)
(*                                                                         *)
(* mem is the image: [a |-> address, z |-> address behind it, b |-> bytes, *)
(* cr3 |-> , vmcs |-> ], NoAsid for any.                                   *)
(***************************************************************************)
EXTENDS Ild, Word, TLC

NoAsid == WMax

\* Where execution goes on: a set of addresses, or Anywhere if that is up to
\* the trace or not said here.
Anywhere == [any |-> TRUE, at |-> {}]
To(S) == [any |-> FALSE, at |-> S]

Fresh == [en |-> "start", last |-> Anywhere, any |-> TRUE, at |-> {}, mode |-> 0,
          spec |-> FALSE, cr3 |-> NoAsid, vmcs |-> NoAsid]

\* Memory.
Alike(x, y) == x = y \/ x = NoAsid \/ y = NoAsid
Sections(mem, s, ip) ==
  {k \in 1..Len(mem) : /\ Alike(mem[k].cr3, s.cr3)
                       /\ Alike(mem[k].vmcs, s.vmcs)
                       /\ WLE(mem[k].a, ip) /\ WLT(ip, mem[k].z)}
\* Up to n bytes from ip on.  sure: it cannot be something else.
RECURSIVE Read(_, _, _, _)
Read(mem, s, ip, n) ==
  LET S == Sections(mem, s, ip)
  IN IF S = {} THEN [b |-> << >>, sure |-> TRUE]
     ELSE LET x == mem[CHOOSE k \in S : TRUE]
              o == WToInt(WSub(ip, x.a))
              have == Len(x.b) - o
          IN IF have >= n
             THEN [b |-> SubSeq(x.b, o + 1, o + n),
                   sure |-> \A k \in S : mem[k] = x]
             ELSE LET r == Read(mem, s, x.z, n - have)
                  IN [b |-> SubSeq(x.b, o + 1, Len(x.b)) \o r.b,
                      sure |-> r.sure /\ \A k \in S : mem[k] = x]

-----------------------------------------------------------------------------
(***************************************************************************)
(* Where execution goes on behind an instruction.                          *)
(***************************************************************************)
Disp(b, q) == WSext(WBytes(SubSeq(b, q.at, q.at + q.br - 1)), q.br)
\* Linear addresses outside of 64-bit mode, if they wrap.
Both(a, m) == IF m = 64 THEN {a} ELSE {a, WTrunc(a, 4)}
After(b, q, ip, m) ==
  LET k == KindOf(q)
      next == WAdd(ip, WInt(q.len))
      target == WAdd(next, Disp(b, q))
      direct == q.br > 0 /\ k.prop # "jmpabs"
  IN IF ~KindKnown(q) THEN Anywhere
     ELSE IF k.cls \in {"other", "ptwrite"} THEN To(Both(next, m))
     ELSE IF ~direct \/ k.cls \notin {"jump", "call", "cond_jump"}
     THEN Anywhere
     \* 16-bit code wraps at the end of its segment
     ELSE IF m # 64 /\ OpSize(q.f) = 16 THEN Anywhere
     ELSE IF k.cls = "cond_jump" THEN To(Both(next, m) \cup Both(target, m))
     ELSE To(Both(target, m))

\* Does it take trace to go on behind the instruction?
NeedsTrace(q) ==
  LET k == KindOf(q)
  IN \/ k.cls \in Far \cup {"return", "indirect", "cond_jump"}
     \/ k.cls \in {"jump", "call"} /\ (q.br = 0 \/ k.prop = "jmpabs")

Place(s, ip) == s.any \/ ip \in s.at
Goes(s, a) == [s EXCEPT !.any = a.any, !.at = a.at]

(***************************************************************************)
(* Reports: the set of states they lead to, empty if they are not allowed. *)
(***************************************************************************)
Insn(mem, s, r) ==
  IF ~(s.en = "yes" /\ Place(s, r.ip) /\ r.m = s.mode /\ r.s = s.spec)
  THEN {} ELSE
  LET rd == Read(mem, s, r.ip, r.n)
      q == Parts(r.b, r.m) \* not used without the mode
  IN IF rd.sure /\ rd.b # r.b THEN {}
     \* without the mode, instructions cannot be understood
     ELSE IF s.mode = 0 THEN {Goes(s, Anywhere)}
     ELSE IF ~Defined(q)
     THEN {Goes(s, IF r.c = "other" THEN To(Both(WAdd(r.ip, WInt(r.n)), r.m))
                   ELSE Anywhere)}
     ELSE IF q.len # r.n THEN {}
     ELSE IF KindKnown(q) /\ KindOf(q).cls # r.c THEN {}
     ELSE {Goes(s, After(r.b, q, r.ip, r.m))}

\* The last of n instructions from ip on without a branch that needs trace
\* in between: [ok, known, ip, to, b (its bytes), q].
RECURSIVE Walk(_, _, _, _, _)
Walk(mem, s, ip, m, n) ==
  LET rd == Read(mem, s, ip, 15)
      q == Parts(rd.b, m)
      no(ok) == [ok |-> ok, known |-> FALSE]
      to == After(rd.b, q, ip, m)
      nxt == {a \in to.at : Sections(mem, s, a) # {}}
  IN IF rd.b = << >> THEN no(FALSE)
     ELSE IF ~rd.sure \/ ~Defined(q) \/ ~KindKnown(q) THEN no(TRUE)
     ELSE IF q.len > Len(rd.b) THEN no(FALSE)
     ELSE IF n = 1
     THEN [ok |-> TRUE, known |-> TRUE, ip |-> ip, to |-> to, q |-> q,
           b |-> SubSeq(rd.b, 1, q.len)]
     ELSE IF NeedsTrace(q) THEN no(FALSE)
     ELSE IF to.any THEN no(TRUE)
     ELSE IF nxt = {} THEN no(FALSE)
     ELSE Walk(mem, s, CHOOSE a \in nxt : TRUE, m, n - 1)

MaxWalk == 150
Block(mem, s, r) ==
  IF ~(s.en = "yes" /\ Place(s, r.ip) /\ r.m = s.mode /\ r.s = s.spec
       /\ r.n > 0) THEN {}
  ELSE IF s.mode = 0 \/ r.n > MaxWalk THEN {Goes(s, Anywhere)}
  ELSE
  LET w == Walk(mem, s, r.ip, r.m, r.n)
  IN IF ~w.ok THEN {}
     ELSE IF ~w.known THEN {Goes(s, Anywhere)}
     ELSE IF w.ip # r.end THEN {}
     ELSE IF r.c \notin {"unknown", "indirect"} /\ KindOf(w.q).cls # r.c
     THEN {}
     ELSE IF r.b # << >> /\ r.b # w.b THEN {}
     ELSE {Goes(s, w.to)}

\* Events that happen at the address they tell, between instructions.
Located == {"tsx", "exec_mode", "async_paging", "async_vmcs", "interrupt",
            "smi", "init", "vmexit", "shutdown", "uintr", "trig", "iflags"}
AtEvent(s, e) == \/ e.su \/ e.ips \/ s.en # "yes" \/ e.t \notin Located
                 \/ Place(s, e.ip)
Settle(s, e) == IF ~e.su /\ ~e.ips /\ s.en = "yes" /\ e.t \in Located
                THEN Goes(s, To({e.ip})) ELSE s
Event(s, e) ==
  IF ~AtEvent(s, e) THEN {} ELSE
  LET t == Settle(s, e)
      if(x, y) == IF x THEN {y} ELSE {}
  IN CASE e.t = "enabled" /\ e.su ->
            if(s.en # "no", IF s.en = "start"
                            THEN Goes([s EXCEPT !.en = "yes"], To({e.ip}))
                            ELSE s)
       [] e.t = "enabled" ->
            if(/\ s.en # "yes" /\ ~e.ips
               /\ e.v = 1 => s.last.any \/ e.ip \in s.last.at,
               Goes([s EXCEPT !.en = "yes"], To({e.ip})))
       [] e.t = "disabled" /\ e.su ->
            if(s.en # "yes", [s EXCEPT !.en = "no"])
       [] e.t = "disabled" ->
            if(s.en = "yes",
               Goes([s EXCEPT !.en = "no",
                     !.last = [any |-> s.any, at |-> s.at]], Anywhere))
       [] e.t = "async_disabled" ->
            if(s.en = "yes" /\ Place(s, e.from),
               Goes([s EXCEPT !.en = "no", !.last = To({e.from})], Anywhere))
       [] e.t = "async_branch" ->
            if(s.en = "yes" /\ Place(s, e.from) /\ ~e.ips,
               Goes(s, To({e.ip})))
       [] e.t = "overflow" ->
            {Goes([s EXCEPT !.en = IF e.ips THEN "no" ELSE "yes",
                            !.last = To({W0}), !.spec = FALSE],
                  IF e.ips THEN Anywhere ELSE To({e.ip}))}
       [] e.t = "exec_mode" -> if(e.su /\ s.en = "yes" => s.mode \in {0, e.v},
                                [t EXCEPT !.mode = e.v])
       [] e.t = "tsx" -> {[t EXCEPT !.spec = (e.v = 1)]}
       [] e.t \in {"paging", "async_paging"} -> {[t EXCEPT !.cr3 = e.w]}
       [] e.t \in {"vmcs", "async_vmcs"} -> {[t EXCEPT !.vmcs = e.w]}
       [] OTHER -> {t}

Report(mem, s, r) ==
  CASE r.k = "s" -> {Fresh}
    [] r.k = "i" -> Insn(mem, s, r)
    [] r.k = "b" -> Block(mem, s, r)
    [] r.k = "e" -> Event(s, r)
=============================================================================
