-------------------------------- MODULE Image --------------------------------
(***************************************************************************)
(* Memory images and image section caches.                                 *)
(*                                                                         *)
(* A file has a size and fixed contents.  A section is a part of a file,   *)
(* cut at the end of the file when it is made.  An image maps parts of     *)
(* sections at addresses of address spaces; an address space is a pair     *)
(* [cr, vm], where -1 stands for "any".  A cache numbers sections          *)
(* together with a load address.                                           *)
(*                                                                         *)
(* Only what a user can observe is part of the state: which section        *)
(* happens to be mapped in memory, and the order in which a cache or an    *)
(* image keeps its entries, are not.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min(a, b) == IF a < b THEN a ELSE b
Any == -1
MatchOne(a, b) == a = b \/ a = Any \/ b = Any
(* Two address spaces match if they may be the same. *)
Match(p, q) == MatchOne(p.cr, q.cr) /\ MatchOne(p.vm, q.vm)

(***************************************************************************)
(* Sections.  sz is the size of the file when the section was made: a      *)
(* section of a file that has changed since need not be readable.          *)
(***************************************************************************)
Section(f, off, size, fsize) ==
  [f |-> f, off |-> off, size |-> Min(size, fsize - off), sz |-> fsize]

(***************************************************************************)
(* Images.  A segment maps the bytes [o, o + e - b) of section s at the    *)
(* addresses [b, e) of the address space as; id identifies the section in  *)
(* the cache it came from, 0 if it came from a file.                       *)
(***************************************************************************)
Segment(s, as, b, id) ==
  [s |-> s, as |-> as, b |-> b, e |-> b + s.size, o |-> 0, id |-> id]

Cut(g, b, e) ==      \* what remains of g outside [b, e)
  (IF g.b < b THEN {[g EXCEPT !.e = b]} ELSE {}) \cup
  (IF e < g.e THEN {[g EXCEPT !.b = e, !.o = @ + (e - g.b)]} ELSE {})

Overlap(g, h) == g.b < h.e /\ h.b < g.e

(* Adding a segment replaces what it covers in all matching spaces. *)
AddSeg(img, n) ==
  LET hit == {g \in img : Match(g.as, n.as) /\ Overlap(g, n)}
  IN (img \ hit) \cup UNION {Cut(g, n.b, n.e) : g \in hit} \cup {n}

RECURSIVE AddAll(_, _)
AddAll(img, segs) ==
  IF segs = {} THEN img
  ELSE LET g == CHOOSE x \in segs : TRUE
       IN AddAll(AddSeg(img, g), segs \ {g})

ByFile(img, f, as) == {g \in img : Match(g.as, as) /\ g.s.f = f}
ByAsid(img, as) == {g \in img : Match(g.as, as)}

(* The segments a read at a may be answered from.  There is more than one  *)
(* only if the address space of the query is not completely known.         *)
Covers(img, as, a) == {g \in img : g.b <= a /\ a < g.e /\ Match(g.as, as)}

(***************************************************************************)
(* Caches: a sequence of entries; the identifier is the index.             *)
(***************************************************************************)
Entry(s, laddr) == [s |-> s, laddr |-> laddr]

Same(x, f, off, size, laddr) ==
  x.s.f = f /\ x.s.off = off /\ x.s.size = size /\ x.laddr = laddr

(* The section shared by all entries for the same part of a file. *)
Shared(c, s) ==
  LET old == {k \in 1..Len(c) :
                c[k].s.f = s.f /\ c[k].s.off = s.off /\ c[k].s.size = s.size}
  IN IF old = {} THEN s
     ELSE c[CHOOSE k \in old : \A j \in old : k <= j].s

Known(c, s, laddr) ==
  {k \in 1..Len(c) : Same(c[k], s.f, s.off, s.size, laddr)}

(* <<new cache, isid>> *)
CacheAdd(c, s, laddr) ==
  LET k == Known(c, s, laddr)
  IN IF k # {} THEN <<c, CHOOSE x \in k : TRUE>>
     ELSE <<Append(c, Entry(Shared(c, s), laddr)), Len(c) + 1>>
=============================================================================
