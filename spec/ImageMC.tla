------------------------------- MODULE ImageMC -------------------------------
(***************************************************************************)
(* Image.tla means what it should, for all short histories: an image       *)
(* contains at an address exactly the sections added there that no later   *)
(* addition in a matching address space covered and no later removal       *)
(* removed, each with the contents of its file.                            *)
(***************************************************************************)
EXTENDS Image, TLC
CONSTANTS MaxOps, MaxAddr, Sizes

Spaces == {<<-1, -1>>, <<1, -1>>, <<2, -1>>, <<-1, 3>>}

Files == {0, 1}
AS == {[cr |-> p[1], vm |-> p[2]] : p \in Spaces}
VARIABLES img, hist
vars == <<img, hist>>

Init == img = {} /\ hist = <<>>

AddFile(f, off, n, as, b) ==
  LET s == Section(f, off, n, 8)
  IN /\ img' = AddSeg(img, Segment(s, as, b, 0))
     /\ hist' = Append(hist, [k |-> "add", s |-> s, as |-> as, b |-> b])

Remove(f, as) ==
  /\ img' = img \ ByFile(img, f, as)
  /\ hist' = Append(hist, [k |-> "rm", s |-> [f |-> f], as |-> as, b |-> 0])

RemoveAll(as) ==
  /\ img' = img \ ByAsid(img, as)
  /\ hist' = Append(hist, [k |-> "rma", s |-> [f |-> 0], as |-> as, b |-> 0])

Next ==
  /\ Len(hist) < MaxOps
  /\ \E as \in AS :
       \/ \E f \in Files, n \in Sizes, b \in 0..MaxAddr :
            AddFile(f, f, n, as, b)
       \/ \E f \in Files : Remove(f, as)
       \/ RemoveAll(as)

Spec == Init /\ [][Next]_vars

In(h, a) == h.k = "add" /\ h.b <= a /\ a < h.b + h.s.size
Gone(h, l, a) ==     \* l, later than h, takes h away from a
  Match(h.as, l.as) /\
  CASE l.k = "add" -> In(l, a)
    [] l.k = "rm"  -> l.s.f = h.s.f
    [] OTHER       -> TRUE

Visible(a) ==
  {k \in 1..Len(hist) :
     In(hist[k], a) /\
     \A l \in (k + 1)..Len(hist) : ~Gone(hist[k], hist[l], a)}

What(f, off, as, n) == [f |-> f, at |-> off, as |-> as, left |-> n]

History ==
  \A a \in 0..(MaxAddr + 4) :
    {<<g.s.f, g.s.off + g.o + (a - g.b), g.as>> :
       g \in {x \in img : x.b <= a /\ a < x.e}} =
    {<<hist[k].s.f, hist[k].s.off + (a - hist[k].b), hist[k].as>> :
       k \in Visible(a)}

Disjoint ==
  \A g, h \in img : g # h => ~(Match(g.as, h.as) /\ Overlap(g, h))

WellFormed == \A g \in img : g.b < g.e /\ g.o >= 0 /\
                             g.o + (g.e - g.b) <= g.s.size

(* Copying an image into an empty one gives an equal image, and the order  *)
(* in which a copy adds sections does not matter.                          *)
CopyEqual == AddAll({}, img) = img
RECURSIVE AddSeq(_, _)
AddSeq(i, q) == IF q = <<>> THEN i ELSE AddSeq(AddSeg(i, Head(q)), Tail(q))
Orders(S) == {q \in [1..Cardinality(S) -> S] : \A x \in S : \E j \in DOMAIN q : q[j] = x}
Base == Segment(Section(0, 0, 4, 8), [cr |-> Any, vm |-> Any], 1, 0)
CopyOrder ==
  Cardinality(img) <= 3 =>
    Cardinality({AddSeq({Base}, q) : q \in Orders(img)}) = 1
=============================================================================
