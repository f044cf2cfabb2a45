------------------------------ MODULE PttcTrace ------------------------------
(***************************************************************************)
(* Recorded runs of pttc are behaviours of Pttc: i is the run, k the line, *)
(* phase the pass, asm and comp the states of the assembler and of the     *)
(* compiler.                                                               *)
(*                                                                         *)
(* A run is the lines src of a source whose name without suffix is root,   *)
(* bin the bytes of the name of its binary, argv the command line, and     *)
(* what it left: its exit status rc, the names it printed, the bytes pt,   *)
(* the files exp and sb, and the lines of the source that its messages are *)
(* about.                                                                  *)
(***************************************************************************)
EXTENDS Pttc, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 64

VARIABLES i, k, phase, asm, comp
vars == << i, k, phase, asm, comp >>

TraceInit == /\ i \in 1..(IF Len(Trace) < Chains THEN Len(Trace) ELSE Chains)
             /\ k = 1 /\ phase = "args" /\ asm = Asm0 /\ comp = Comp0

Asked(r) == Request(r.argv, << >>, FALSE)
Start == /\ phase = "args" /\ Asked(Trace[i]).what = "run"
         /\ phase' = "asm"
         /\ UNCHANGED << i, k, asm, comp >>

Pass == /\ k <= Len(Trace[i].src)
        /\ k' = k + 1
        /\ UNCHANGED << i, phase >>
AssembleLine == /\ phase = "asm" /\ Pass
                /\ asm' = Assemble(asm, Trace[i].src[k])
                /\ UNCHANGED comp
Assembled == /\ phase = "asm" /\ k > Len(Trace[i].src)
             /\ k' = 1 /\ phase' = "comp"
             /\ comp' = IF asm.org = << >> THEN Fails(comp, 0) ELSE comp
             /\ UNCHANGED << i, asm >>
CompileLine == /\ phase = "comp" /\ comp.fault < 0 /\ Pass
               /\ LET r == Trace[i]
                  IN comp' = Compile(comp, r.src[k], asm, r.root, r.bin,
                                     Asked(r).cpu, k)
               /\ UNCHANGED asm

\* Multisets, as sequences.
Same(a, b) == /\ Len(a) = Len(b)
              /\ \A x \in {a[j] : j \in DOMAIN a} :
                   Cardinality({j \in DOMAIN a : a[j] = x}) =
                   Cardinality({j \in DOMAIN b : b[j] = x})
Matches(b, e) == Len(b) = Len(e) /\ \A j \in DOMAIN e : e[j] \in {-1, b[j]}

Succeeds(r) ==
  LET sbs == [j \in DOMAIN comp.sb |-> SbFile(comp.sb[j])]
      exps == [j \in DOMAIN comp.exp |-> comp.exp[j].n]
  IN /\ r.rc = 0
     /\ r.pt = comp.pt
     /\ Same(r.printed, exps \o sbs)
     /\ Same(r.exp, comp.exp)
     /\ Len(r.sb) = Len(comp.sb)
     /\ \A j \in DOMAIN comp.sb :
          \E q \in DOMAIN r.sb : /\ r.sb[q].n = SbFile(comp.sb[j])
                                 /\ Matches(r.sb[q].b, comp.sb[j].b)

\* It tells where the fault is; the expectation it was about to write does
\* not count.
Refuses(r) ==
  LET done == {comp.exp[j].n : j \in 1..(Len(comp.exp) - 1)}
  IN /\ r.rc # 0
     /\ comp.fault > 0 => \E j \in DOMAIN r.about : r.about[j] = comp.fault
     /\ \A j \in DOMAIN r.printed :
          r.printed[j] \in done \/ \E q \in DOMAIN r.sb :
                                     r.sb[q].n = r.printed[j]
     /\ comp.exp = << >> => r.exp = << >>

\* Without a compilation there are no files.
Answers(r) == /\ (r.rc = 0) = (Asked(r).what = "info")
              /\ r.pt = << >> /\ r.exp = << >> /\ r.sb = << >>

End == /\ \/ /\ phase = "args" /\ Asked(Trace[i]).what # "run"
             /\ Answers(Trace[i])
          \/ /\ phase = "comp"
             /\ comp.fault >= 0 \/ k > Len(Trace[i].src)
             /\ IF comp.fault >= 0 THEN Refuses(Trace[i])
                ELSE Succeeds(Trace[i])
       /\ IF i + Chains <= Len(Trace)
          THEN /\ i' = i + Chains /\ k' = 1 /\ phase' = "args"
               /\ asm' = Asm0 /\ comp' = Comp0
          ELSE UNCHANGED vars

TraceNext == Start \/ AssembleLine \/ Assembled \/ CompileLine \/ End
=============================================================================
