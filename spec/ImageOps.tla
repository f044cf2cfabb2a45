------------------------------- MODULE ImageOps -------------------------------
(***************************************************************************)
(* The operations on images and section caches, as a user sees them: what  *)
(* an operation may return, and what holds afterwards.                     *)
(*                                                                         *)
(* The state st has                                                        *)
(*   fs   the files' sizes, -1 when removed                                *)
(*   imgs the images: segments and read callback                           *)
(*   cs   the caches: entries and limit                                    *)
(*   hs   the sections being used, as by a decoder                         *)
(* An operation op is a record of its arguments and its results; all have  *)
(* op, fail (an allocation or mapping was made to fail in it), e (the      *)
(* error, "" if none).  Results(st, op) are the states that may follow,    *)
(* none if the operation must not return what it did.                      *)
(***************************************************************************)
EXTENDS Image

Empty == [segs |-> {}, cb |-> 0]
Fresh == [es |-> <<>>, limit |-> -1]
Start(sizes) ==
  [fs |-> sizes, imgs |-> [x \in 1..3 |-> Empty],
   cs |-> [x \in 1..2 |-> Fresh], hs |-> [x \in 1..3 |-> {}]]

(* The contents of files and of what the read callback provides. *)
Byte(f, o) == (f * 101 + o * 7 + (o \div 256) * 13 + (o \div 4096) * 29) % 256
CbByte(as, a) == (a * 5 + (as.cr + 1) * 3 + (as.vm + 1) * 17 + 11) % 256

(* Long reads are recorded as the first and last bytes only. *)
Shown(n, x) == IF n <= 64 \/ x <= 12 THEN x - 1 ELSE n - 24 + x - 1
NumShown(n) == IF n <= 64 THEN n ELSE 24

As(o) == [cr |-> o.cr, vm |-> o.vm]
If(c, st) == IF c THEN {st} ELSE {}

Bytes(o, F(_)) ==
  /\ o.len = NumShown(o.got)
  /\ \A x \in 1..o.len : o.by[x] = F(Shown(o.got, x))

(* Reading from section s at offset o at least and at most so many bytes.  *)
(* The contents of a file that changed need not be available any more; but *)
(* if they are, they are right.                                            *)
Unlinked(st, s) == st.fs[s.f + 1] = -1
Changed(st, s) == st.fs[s.f + 1] # s.sz
Unreadable(st, op, s) ==
  \/ Unlinked(st, s) /\ op.e = "bad_file"
  \/ Changed(st, s) /\ op.e = "bad_image"
FromSection(st, op, s, o, n, least) ==
  \/ /\ op.e = ""
     /\ op.got <= n /\ op.got >= least
     /\ Bytes(op, LAMBDA x : Byte(s.f, s.off + o + x))
  \/ Unreadable(st, op, s)

(* The callback is asked exactly once, for exactly what was wanted. *)
Called(op) ==
  op.cbs = <<[cr |-> op.cr, vm |-> op.vm, a |-> op.a, n |-> op.n]>>

FromCallback(op, cb) ==
  CASE cb = 0 -> op.e = "nomap" /\ op.cbs = <<>>
    [] cb = 1 -> /\ Called(op) /\ op.e = "" /\ op.got = op.n /\ op.id = 0
                 /\ Bytes(op, LAMBDA x : CbByte(As(op), op.a + x))
    [] cb = 2 -> /\ Called(op) /\ op.e = "" /\ op.got = (op.n + 1) \div 2
                 /\ op.id = 0
                 /\ Bytes(op, LAMBDA x : CbByte(As(op), op.a + x))
    [] cb = 3 -> Called(op) /\ op.e = "nomap"
    [] OTHER -> Called(op) /\ op.e = "bad_context"

(* Reading segment g at op.a. *)
FromSegment(st, op, g) ==
  /\ op.e = "" => op.id = g.id
  /\ LET n == Min(op.n, g.e - op.a)
     IN FromSection(st, op, g.s, g.o + (op.a - g.b), n, n)

Read(st, op) ==
  LET im == st.imgs[op.im]
      hit == Covers(im.segs, As(op), op.a)
  IN If(IF hit = {} THEN FromCallback(op, im.cb)
        ELSE op.cbs = <<>> /\ \E g \in hit : FromSegment(st, op, g), st)

AddFileErr(st, op) ==
  CASE st.fs[op.f + 1] = -1 -> "bad_file"
    [] op.o >= st.fs[op.f + 1] -> "invalid"
    [] OTHER -> ""

NewSection(st, op) == Section(op.f, op.o, op.size, st.fs[op.f + 1])

SetSegs(st, x, segs) == [st EXCEPT !.imgs[x].segs = segs]
AddTo(st, x, g) == SetSegs(st, x, AddSeg(st.imgs[x].segs, g))

AddFile(st, op) ==
  LET err == AddFileErr(st, op)
  IN If(op.e = err,
        IF err # "" THEN st
        ELSE AddTo(st, op.im, Segment(NewSection(st, op), As(op), op.a, 0)))

HasId(st, c, id) == id \in 1..Len(st.cs[c].es)

AddCached(st, op) ==
  IF HasId(st, op.c, op.id)
  THEN LET x == st.cs[op.c].es[op.id]
       IN If(op.e = "",
             AddTo(st, op.im, Segment(x.s, As(op), x.laddr, op.id)))
  ELSE If(op.e = "bad_image", st)

Copy(st, op) ==
  If(op.e = "" /\ op.cnt = 0,
     IF op.im = op.src THEN st
     ELSE SetSegs(st, op.im,
                  AddAll(st.imgs[op.im].segs, st.imgs[op.src].segs)))

Remove(st, op, gone) ==
  If(op.e = "" /\ op.cnt = Cardinality(gone),
     SetSegs(st, op.im, st.imgs[op.im].segs \ gone))

(* A request for a part of a file that the cache knows is answered from    *)
(* it, even if the file has been removed since.                            *)
CacheAddFile(st, op) ==
  LET es == st.cs[op.c].es
      part == {x \in 1..Len(es) : es[x].s.f = op.f /\ es[x].s.off = op.o /\
                                  es[x].s.size = op.size}
      err == IF part # {} THEN "" ELSE AddFileErr(st, op)
      s == IF part # {} THEN es[CHOOSE x \in part : TRUE].s
           ELSE NewSection(st, op)
  IN IF err # "" THEN If(op.e = err, st)
     ELSE LET r == CacheAdd(es, s, op.a)
          IN If(op.e = "" /\ op.id = r[2], [st EXCEPT !.cs[op.c].es = r[1]])

CacheRead(st, op) ==
  If(IF op.n = 0 THEN op.e = "invalid"
     ELSE IF ~HasId(st, op.c, op.id) THEN op.e = "bad_image"
     ELSE LET x == st.cs[op.c].es[op.id]
              o == op.a - x.laddr
              n == Min(op.n, x.s.size - o)
          IN IF o < 0 \/ o >= x.s.size
             THEN op.e = "nomap" \/ Unreadable(st, op, x.s)
             ELSE FromSection(st, op, x.s, o, n, Min(n, 4096)), st)

SetHold(st, op, x) == [st EXCEPT !.hs[op.h] = x]

(* A decoder fetches a section and goes on using it. *)
Hold(st, op) ==
  LET hit == Covers(st.imgs[op.im].segs, As(op), op.a)
  IN IF hit = {} THEN If(op.e = "nomap", SetHold(st, op, {}))
     ELSE {SetHold(st, op, IF op.e = "" THEN {g} ELSE {}) :
             g \in {x \in hit : FromSegment(st, op, x)}}

Held(st, op) == CHOOSE x \in st.hs[op.h] : TRUE

HeldRead(st, op) ==
  If(IF st.hs[op.h] = {} THEN op.e = "nomap"
     ELSE LET g == Held(st, op)
              n == Min(op.n, g.e - op.a)
          IN IF op.a < g.b \/ g.e <= op.a THEN op.e = "nomap"
             ELSE /\ op.e = "" /\ op.got = n
                  /\ Bytes(op, LAMBDA x :
                       Byte(g.s.f, g.s.off + g.o + (op.a - g.b) + x)), st)

(* The held section may be used for an address only while the image maps   *)
(* it there.                                                               *)
Valid(st, op) ==
  If(\/ op.e = "nomap"
     \/ /\ op.e = "" /\ st.hs[op.h] # {}
        /\ LET g == Held(st, op)
           IN g.b <= op.a /\ op.a < g.e /\ g \in st.imgs[op.im].segs, st)

Apply(st, op) ==
  CASE op.op = "add"   -> AddFile(st, op)
    [] op.op = "addc"  -> AddCached(st, op)
    [] op.op = "copy"  -> Copy(st, op)
    [] op.op = "rmf"   -> Remove(st, op, ByFile(st.imgs[op.im].segs, op.f, As(op)))
    [] op.op = "rma"   -> Remove(st, op, ByAsid(st.imgs[op.im].segs, As(op)))
    [] op.op = "cb"    -> If(op.e = "", [st EXCEPT !.imgs[op.im].cb = op.cnt])
    [] op.op = "read"  -> Read(st, op)
    [] op.op = "cadd"  -> CacheAddFile(st, op)
    [] op.op = "cread" -> CacheRead(st, op)
    [] op.op = "limit" -> If(op.e = "", [st EXCEPT !.cs[op.c].limit = op.size])
    [] op.op = "hold"  -> Hold(st, op)
    [] op.op = "hread" -> HeldRead(st, op)
    [] op.op = "hval"  -> Valid(st, op)
    [] op.op = "bc"    -> If(op.e = "", st)
    [] op.op = "drop"  -> If(op.e = "", SetHold(st, op, {}))
    [] op.op = "ifree" -> {[st EXCEPT !.imgs[op.im] = Empty]}
    [] op.op = "cfree" -> {[st EXCEPT !.cs[op.c] = Fresh]}
    [] op.op = "grow"  -> {[st EXCEPT !.fs[op.f + 1] = op.size]}
    [] op.op = "unlink" -> {[st EXCEPT !.fs[op.f + 1] = -1]}
    [] OTHER -> {}

(* An operation in which memory ran out may fail and then has no effect.   *)
NoMem(st, op) ==
  If(op.fail /\ op.e = "nomem",
     IF op.op = "hold" THEN SetHold(st, op, {}) ELSE st)

(* What stays mapped when nobody is using it is within the limits. *)
Within(st, m) ==
  (\A x \in DOMAIN st.hs : st.hs[x] = {}) =>
    \/ \E x \in DOMAIN st.cs : st.cs[x].limit = -1
    \/ m <= st.cs[1].limit + st.cs[2].limit

Results(st, op) == Apply(st, op) \cup NoMem(st, op)

(* When everything has been freed, nothing is left. *)
Released == [mem |-> 0, map |-> 0, fd |-> 0, lock |-> 0]
=============================================================================
