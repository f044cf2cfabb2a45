----------------------------- MODULE SbCtxTrace -----------------------------
(* Recorded uses of process contexts are behaviours of SbContexts. *)
EXTENDS SbContexts, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, k

TraceInit == CInit /\ i \in 1..Len(Trace) /\ k = 0
Steps == Trace[i].steps

Do(s) ==
  CASE s.k = "find" -> open /\ Find(s.p, s.e, s.c)
    [] s.k = "get" -> open /\ Get(s.p, s.oom = 1, s.e, s.c)
    [] s.k = "rm" -> open /\ Remove(s.h, s.e)
    [] s.k = "ref" -> Ref(s.h, s.n, s.e, s.done)
    [] s.k = "put" -> Put(s.h, s.n, s.e)
    [] s.k = "mmap" -> open /\ Mmap(s.h, s.f, s.o, s.n, s.s, s.e)
    [] s.k = "note" -> open /\ Notify(s.to, s.old)
    [] s.k = "switch" -> open /\ Switch(s.h, s.e, s.im, s.was, s.told)
    [] s.k = "free" -> Free
\* What every context that can be used reads like, and the kernel.
Reads(s) ==
  /\ s.ic = 1
  /\ s.ims = Cardinality(Live') + (IF open' THEN 1 ELSE 0)
  /\ Len(s.mem) = Len(ctx')
  /\ \A h \in DOMAIN ctx' :
       IF ctx'[h].own + (IF ctx'[h].listed THEN 1 ELSE 0) > 0
       THEN s.mem[h] = [x \in 1..Slots |-> ctx'[h].mem[x - 1]]
       ELSE s.mem[h] = <<>>
  /\ s.kern = IF open' THEN [x \in 1..Slots |-> kern'[x - 1]] ELSE <<>>

TraceNext ==
  \/ /\ k < Len(Steps) /\ k' = k + 1 /\ UNCHANGED i
     /\ Do(Steps[k + 1]) /\ Reads(Steps[k + 1])
  \/ k = Len(Steps) /\ Trace[i].left = 0 /\ UNCHANGED <<cvars, i, k>>
=============================================================================
