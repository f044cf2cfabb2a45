-------------------------------- MODULE Ild --------------------------------
(***************************************************************************)
(* The length and the kind of x86 instructions, from the architecture's    *)
(* rules for instruction formats: prefixes, opcode maps, ModRM, SIB,       *)
(* displacement and immediate.                                             *)
(*                                                                         *)
(* b is a sequence of bytes, m the execution mode: 16, 32, or 64.          *)
(* Instructions that the architecture does not define, or that fault in    *)
(* any case, are not Defined; nothing is said about them.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Byte(b, k) == IF k <= Len(b) THEN b[k] ELSE 0
Bits(x, hi, lo) == (x \div 2^lo) % 2^(hi - lo + 1)

(***************************************************************************)
(* Prefixes.  A REX prefix counts only directly before the opcode.         *)
(***************************************************************************)
NoPfx == [osz |-> FALSE, asz |-> FALSE, lock |-> FALSE, f2 |-> FALSE,
          f3 |-> FALSE, rex |-> 0, at |-> 1, n |-> 0]
RECURSIVE Scan(_, _, _)
Scan(b, m, p) ==
  LET x == Byte(b, p.at)
      q == [p EXCEPT !.at = @ + 1, !.n = @ + 1, !.rex = 0]
  IN IF p.at > 15 THEN p
     ELSE CASE x \in {38, 46, 54, 62, 100, 101} -> Scan(b, m, q)
            [] x = 102 -> Scan(b, m, [q EXCEPT !.osz = TRUE])
            [] x = 103 -> Scan(b, m, [q EXCEPT !.asz = TRUE])
            [] x = 240 -> Scan(b, m, [q EXCEPT !.lock = TRUE])
            [] x = 242 -> Scan(b, m, [q EXCEPT !.f2 = TRUE])
            [] x = 243 -> Scan(b, m, [q EXCEPT !.f3 = TRUE])
            [] m = 64 /\ x \in 64..79 -> Scan(b, m, [q EXCEPT !.rex = x])
            [] OTHER -> p

(***************************************************************************)
(* The form of an instruction: its encoding, opcode map, opcode, mandatory *)
(* prefix, the bits W and R (four of them), and where the ModRM byte is if *)
(* there is one.                                                           *)
(***************************************************************************)
Form(b, m) ==
  LET p == Scan(b, m, NoPfx)
      k == p.at
      x == Byte(b, k)
      y == Byte(b, k + 1)
      z == Byte(b, k + 2)
      wide == m = 64 \/ y >= 192
      plain == ~p.osz /\ ~p.lock /\ ~p.f2 /\ ~p.f3 /\ p.rex = 0
      pp == Bits(z, 1, 0)
      base == [p |-> p, m |-> m, enc |-> "legacy", map |-> 0, op |-> x,
               w |-> Bits(p.rex, 3, 3) = 1, r |-> Bits(p.rex, 2, 2),
               osz |-> p.osz, modrm |-> k + 1, ok |-> TRUE, v |-> 0]
  IN CASE x = 197 /\ wide ->
            [base EXCEPT !.enc = "vex", !.map = 1, !.op = z, !.w = FALSE,
                         !.osz = Bits(y, 1, 0) = 1, !.modrm = k + 3,
                         !.ok = plain]
       [] x = 196 /\ wide ->
            [base EXCEPT !.enc = "vex", !.map = Bits(y, 4, 0),
                         !.op = Byte(b, k + 3), !.w = Bits(z, 7, 7) = 1,
                         !.osz = pp = 1, !.modrm = k + 4, !.ok = plain]
       [] x = 98 /\ wide ->
            [base EXCEPT !.enc = "evex", !.map = Bits(y, 2, 0),
                         !.op = Byte(b, k + 4), !.w = Bits(z, 7, 7) = 1,
                         !.osz = pp = 1, !.modrm = k + 5, !.ok = plain]
       [] x = 213 /\ m = 64 ->
            [base EXCEPT !.enc = "rex2", !.map = Bits(y, 7, 7), !.op = z,
                         !.w = Bits(y, 3, 3) = 1,
                         !.r = Bits(y, 2, 2) + 2 * Bits(y, 6, 6),
                         !.modrm = k + 3, !.ok = p.rex = 0]
       [] x = 15 /\ y = 56 ->
            [base EXCEPT !.map = 2, !.op = z, !.modrm = k + 3]
       [] x = 15 /\ y = 58 ->
            [base EXCEPT !.map = 3, !.op = z, !.modrm = k + 3]
       [] x = 15 -> [base EXCEPT !.map = 1, !.op = y, !.modrm = k + 2]
       [] OTHER -> base

Simple(f) == f.enc \in {"legacy", "rex2"}
OpIs(f, map, S) == Simple(f) /\ f.map = map /\ f.op \in S

(***************************************************************************)
(* ModRM.                                                                  *)
(***************************************************************************)
ModRM0 == {o \in 0..63 : o % 8 < 4} \cup {98, 99, 105, 107} \cup 128..143 \cup
          {192, 193, 196, 197, 198, 199} \cup 208..211 \cup 216..223 \cup
          {246, 247, 254, 255}
NoModRM1 == {5, 6, 7, 8, 9, 11, 14} \cup 48..55 \cup {119} \cup 128..143 \cup
            {160, 161, 162, 168, 169, 170} \cup 200..207
HasModRM(f) ==
  CASE Simple(f) /\ f.map = 0 -> f.op \in ModRM0
    [] Simple(f) /\ f.map = 1 -> f.op \notin NoModRM1
    [] f.enc = "vex" /\ f.map = 1 -> f.op # 119
    [] OTHER -> TRUE

\* Moves to and from control and debug registers have no memory operand.
NoMemory(f) == OpIs(f, 1, 32..35)

ModRM(b, f) == Byte(b, f.modrm)
Mod(x) == Bits(x, 7, 6)
Reg(x) == Bits(x, 5, 3)
Rm(x) == Bits(x, 2, 0)

Addr16(f) == IF f.p.asz THEN f.m = 32 ELSE f.m = 16
HasSib(f, x) == ~NoMemory(f) /\ Mod(x) # 3 /\ Rm(x) = 4 /\ ~Addr16(f)

\* The size of the displacement of a memory operand.
MemDisp(f, x, sib) ==
  LET none == IF Addr16(f) THEN Rm(x) = 6
              ELSE Rm(x) = 5 \/ (Rm(x) = 4 /\ Rm(sib) = 5)
      big == IF Addr16(f) THEN 2 ELSE 4
  IN CASE NoMemory(f) \/ Mod(x) = 3 -> 0
       [] Mod(x) = 0 -> IF none THEN big ELSE 0
       [] Mod(x) = 1 -> 1
       [] OTHER -> big

(***************************************************************************)
(* Operand sizes, and displacements and immediates of the opcodes.         *)
(***************************************************************************)
OpSize(f) == CASE f.m = 64 -> IF f.w THEN 64 ELSE IF f.osz THEN 16 ELSE 32
               [] f.m = 32 -> IF f.osz THEN 16 ELSE 32
               [] OTHER -> IF f.osz THEN 32 ELSE 16
ImmZ(f) == IF OpSize(f) = 16 THEN 2 ELSE 4
ImmV(f) == OpSize(f) \div 8
BranchZ(f) == IF f.m = 64 THEN 4 ELSE ImmZ(f)
AddrBytes(f) == CASE f.m = 64 -> IF f.p.asz THEN 4 ELSE 8
                  [] f.m = 32 -> IF f.p.asz THEN 2 ELSE 4
                  [] OTHER -> IF f.p.asz THEN 4 ELSE 2
JmpAbs(f) == f.enc = "rex2" /\ f.map = 0 /\ f.op = 161

\* Branch displacements.
BrDisp(f, x) ==
  CASE OpIs(f, 0, 112..127 \cup 224..227 \cup {235}) -> 1
    [] OpIs(f, 0, {232, 233}) \/ OpIs(f, 1, 128..143) -> BranchZ(f)
    [] OpIs(f, 0, {199}) /\ Reg(x) = 7 -> ImmZ(f)      \* xbegin
    [] OTHER -> 0

Imm0(f, x) ==
  LET o == f.op
  IN CASE o < 64 /\ o % 8 = 4 -> 1
       [] o < 64 /\ o % 8 = 5 -> ImmZ(f)
       [] o \in {104, 105, 129, 169} -> ImmZ(f)
       [] o \in {106, 107, 128, 130, 131, 168} -> 1
       [] o \in {154, 234} -> ImmZ(f) + 2
       [] o \in 160..163 -> IF JmpAbs(f) THEN 8 ELSE AddrBytes(f)
       [] o \in 176..183 -> 1
       [] o \in 184..191 -> ImmV(f)
       [] o \in {192, 193, 198, 205, 212, 213} \cup 228..231 -> 1
       [] o \in {194, 202} -> 2
       [] o = 199 -> IF Reg(x) = 0 THEN ImmZ(f) ELSE 0
       [] o = 200 -> 3
       [] o = 246 -> IF Reg(x) < 2 THEN 1 ELSE 0
       [] o = 247 -> IF Reg(x) < 2 THEN ImmZ(f) ELSE 0
       [] OTHER -> 0
Imm1 == 112..115 \cup {164, 172, 186, 194, 196, 197, 198}
ImmVec1 == 112..115 \cup {194, 196, 197, 198}

\* Extended instructions that follow those of map 0.
Imm4(f, x) ==
  CASE f.op \in {36, 44, 107, 128, 131, 192, 193} -> 1
    [] f.op \in {105, 129} -> ImmZ(f)
    [] f.op = 246 -> IF Reg(x) < 2 THEN 1 ELSE 0
    [] f.op = 247 -> IF Reg(x) < 2 THEN ImmZ(f) ELSE 0
    [] OTHER -> 0

Imm(f, x) ==
  CASE Simple(f) /\ f.map = 0 -> Imm0(f, x)
    [] Simple(f) /\ f.map = 1 -> IF f.op \in Imm1 THEN 1 ELSE 0
    [] ~Simple(f) /\ f.map = 1 -> IF f.op \in ImmVec1 THEN 1 ELSE 0
    [] f.map = 3 -> 1
    [] f.map = 4 -> Imm4(f, x)
    [] f.map = 7 -> 4
    [] OTHER -> 0

(***************************************************************************)
(* The parts: where the branch displacement is, and the length.            *)
(***************************************************************************)
Parts(b, m) ==
  LET f == Form(b, m)
      has == HasModRM(f)
      x == IF has THEN ModRM(b, f) ELSE 0
      sib == has /\ HasSib(f, x)
      a == f.modrm + (IF has THEN 1 ELSE 0) + (IF sib THEN 1 ELSE 0)
      d == IF has THEN MemDisp(f, x, IF sib THEN Byte(b, f.modrm + 1) ELSE 0)
           ELSE 0
      br == BrDisp(f, x)
  IN [f |-> f, x |-> x, has |-> has, at |-> a + d, br |-> br,
      len |-> a + d + br + Imm(f, x) - 1]

(***************************************************************************)
(* What is defined.                                                        *)
(***************************************************************************)
Not64 == {6, 7, 14, 22, 23, 30, 31, 39, 47, 55, 63, 96, 97, 98, 130, 154, 196,
          197, 206, 212, 213, 214, 234}
Vex1 == (16..23) \cup (40..47) \cup {65, 66, 68, 69, 70, 71, 74, 75} \cup
        (80..119) \cup (124..127) \cup (144..147) \cup {152, 153, 174, 194, 196, 197, 198} \cup
        (208..254)
Defined(q) ==
  LET f == q.f  o == f.op  x == q.x
  IN /\ f.ok
     /\ CASE Simple(f) /\ f.map = 0 ->
             /\ o # 214
             /\ f.m = 64 => o \notin Not64
             /\ o \in {98, 196, 197} => Mod(x) # 3
             /\ o = 143 => Reg(x) = 0
             /\ o \in {198, 199} => Reg(x) = 0 \/ x = 248
             /\ o \in {192, 193} \cup 208..211 => Reg(x) # 6
             /\ o \in {246, 247} => Reg(x) # 1
             /\ o = 254 => Reg(x) < 2
             /\ o = 255 => Reg(x) # 7 /\ (Reg(x) \in {3, 5} => Mod(x) # 3)
             /\ f.enc = "rex2" =>
                  \/ JmpAbs(f) /\ ~f.w /\ ~f.osz /\ ~f.p.asz
                     /\ ~f.p.lock /\ ~f.p.f2 /\ ~f.p.f3
                  \/ o \div 16 \notin {4, 7, 10, 14} /\ o # 15
                     /\ o \notin {38, 46, 54, 62} \cup 100..103
                     /\ o \notin {240, 242, 243}
          [] Simple(f) /\ f.map = 1 ->
             /\ o \notin {4, 10, 12, 14, 15, 36, 37, 38, 39, 54, 56, 57, 58, 59,
                          60, 61, 62, 63, 120, 122, 123, 166, 167}
             /\ o = 120 => ~f.p.osz /\ ~f.p.f2
             /\ o = 184 => f.p.f3
             /\ o = 199 => ~(Mod(x) = 3 /\ Reg(x) < 6)
             /\ o \in 32..35 => Mod(x) = 3
             /\ f.enc = "rex2" => o \div 16 \notin {3, 8}
          [] Simple(f) -> f.enc = "legacy"
          [] f.enc = "vex" /\ f.map = 1 -> o \in Vex1
          [] f.enc = "vex" -> f.map \in {2, 3}
          [] OTHER -> /\ f.map \in {1, 2, 3, 4, 5, 6}
                      /\ f.map = 4 => f.m = 64 /\ o \notin {212}

(***************************************************************************)
(* Kinds of instructions.                                                  *)
(***************************************************************************)
Rep(f) == CASE f.p.f2 /\ f.p.f3 -> "both" [] f.p.f2 -> "f2"
            [] f.p.f3 -> "f3" [] OTHER -> "none"
\* Further properties by name.
Kind(cls, prop) == [cls |-> cls, prop |-> prop]
K0(f, x) ==
  LET o == f.op
  IN CASE o \in 112..127 \cup 224..227 -> Kind("cond_jump", "")
       [] o = 154 -> Kind("far_call", "")
       [] o = 255 /\ Reg(x) = 2 -> Kind("call", "")
       [] o = 255 /\ Reg(x) = 3 -> Kind("far_call", "")
       [] o = 255 /\ Reg(x) = 4 -> Kind("jump", "")
       [] o = 255 /\ Reg(x) = 5 -> Kind("far_jump", "")
       [] o = 232 -> Kind("call", "")
       [] o \in {204, 205, 206, 241} -> Kind("far_call", "int")
       [] o = 207 -> Kind("far_return", "iret")
       [] o \in {233, 235} -> Kind("jump", "")
       [] o = 234 -> Kind("far_jump", "")
       [] o \in {194, 195} -> Kind("return", "")
       [] o \in {202, 203} -> Kind("far_return", "")
       [] JmpAbs(f) -> Kind("jump", "jmpabs")
       [] OTHER -> Kind("other", "")
K1(f, x) ==
  LET o == f.op
      np == Rep(f) = "none" /\ ~f.osz
  IN CASE o \in 128..143 -> Kind("cond_jump", "")
       [] o = 34 /\ Reg(x) = 3 /\ f.r = 0 -> Kind("other", "cr3")
       [] o = 5 -> Kind("far_call", "syscall")
       [] o = 52 -> Kind("far_call", "syscall")
       [] o \in {7, 53} -> Kind("far_return", "sysret")
       [] o = 1 /\ x = 193 /\ np -> Kind("far_call", "")
       [] o = 1 /\ x \in {194, 195} /\ np -> Kind("far_return", "vmentry")
       [] o = 1 /\ x = 236 /\ Rep(f) = "f3" /\ ~f.osz ->
            Kind("far_return", "uiret")
       [] o = 1 /\ x = 202 /\ Rep(f) \in {"f2", "f3"} ->
            Kind("far_return", "eret")
       [] o = 199 /\ Mod(x) # 3 /\ Reg(x) = 6 /\ np -> Kind("other", "vmptrld")
       [] o = 174 /\ Reg(x) = 4 /\ Rep(f) = "f3" /\ ~f.osz ->
            Kind("ptwrite", "")
       [] OTHER -> Kind("other", "")
KindOf(q) ==
  CASE ~Simple(q.f) -> Kind("other", "")
    [] q.f.map = 0 -> K0(q.f, q.x)
    [] q.f.map = 1 -> K1(q.f, q.x)
    [] OTHER -> Kind("other", "")

\* Where the architecture leaves the kind open, or differs by vendor.
KindKnown(q) ==
  LET f == q.f  o == f.op  x == q.x
  IN /\ Rep(f) # "both"
     /\ Simple(f) /\ f.map = 1 =>
          /\ o = 1 => /\ x # 204
                      /\ x \in {193, 194, 195} => Rep(f) = "none" /\ ~f.osz
                      /\ x = 236 => Rep(f) = "f3" /\ ~f.osz
                      /\ x = 202 => ~f.osz /\ (Rep(f) # "none" => f.m = 64)
                      /\ x \notin {197, 205, 206, 207, 215, 216, 217, 222, 223}
          /\ o \in {5, 7} => f.m = 64
          /\ o = 55 => FALSE
          /\ o = 170 => FALSE
          /\ o = 199 => Rep(f) = "none" \/ ~f.osz
          /\ o = 174 /\ Reg(x) = 4 => ~(Rep(f) = "f3" /\ f.osz)
     /\ ~f.p.lock

(***************************************************************************)
(* The properties that follow from the kind.                               *)
(***************************************************************************)
Far == {"far_call", "far_return", "far_jump"}
Branches == Far \cup {"call", "return", "jump", "cond_jump", "indirect"}
Props(k) ==
  [branch |-> k.cls \in Branches, far |-> k.cls \in Far,
   cr3 |-> k.prop = "cr3",
   pip |-> k.cls \in Far \/ k.prop = "cr3",
   vmcs |-> k.cls \in Far \/ k.prop = "vmptrld",
   ptw |-> k.cls = "ptwrite",
   iret |-> k.prop \in {"iret", "sysret", "eret"},
   vmentry |-> k.prop = "vmentry", uiret |-> k.prop = "uiret"]
=============================================================================
