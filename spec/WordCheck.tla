------------------------------ MODULE WordCheck ------------------------------
(***************************************************************************)
(* The operators of Word as TLC evaluates them (java/Word.java) equal      *)
(* their definitions.  WordDef is Word.tla under another name, which has   *)
(* no overrides.                                                           *)
(***************************************************************************)
EXTENDS Word, TLC
D == INSTANCE WordDef
VARIABLES a, b, n
vars == <<a, b, n>>

Bytes == {0, 1, 127, 128, 255, 90}
Words == {W0, WMax, WInt(1), WInt(255), WInt(65535), WPow2(63), WPow2(31)}
RW == IF RandomElement(1..5) = 1 THEN RandomElement(Words)
      ELSE W8(LAMBDA k : IF RandomElement(1..3) = 1 THEN RandomElement(Bytes)
                         ELSE RandomElement(0..255))
Init == a \in Words /\ b \in Words /\ n \in {0, 1, 8, 63}
Next == a' = RW /\ b' = D!WTrunc(RW, RandomElement(0..8))
        /\ n' = RandomElement(0..63)

Same ==
  LET m == n % 9 IN
  /\ WTrunc(a, m) = D!WTrunc(a, m)
  /\ WMerge(a, b, m) = D!WMerge(a, b, m)
  /\ (m > 0 => WSext(a, m) = D!WSext(a, m))
  /\ WAnd(a, b) = D!WAnd(a, b) /\ WOr(a, b) = D!WOr(a, b)
  /\ WNot(a) = D!WNot(a) /\ WAdd(a, b) = D!WAdd(a, b)
  /\ WNeg(a) = D!WNeg(a) /\ WSub(a, b) = D!WSub(a, b)
  /\ WAddI(a, n) = D!WAddI(a, n) /\ WAddI(a, -n) = D!WAddI(a, -n)
  /\ WLT(a, b) = D!WLT(a, b) /\ WLE(a, b) = D!WLE(a, b)
  /\ WLE(a, a) = D!WLE(a, a) /\ WLT(a, a) = D!WLT(a, a)
  /\ WShl(a, n) = D!WShl(a, n) /\ WShr(a, n) = D!WShr(a, n)
  /\ WBit(a, n) = D!WBit(a, n) /\ WPow2(n) = D!WPow2(n)
  /\ WMulI(a, b[1] * 300) = D!WMulI(a, b[1] * 300)
  /\ WMul(a, b) = D!WMul(a, b)
  /\ TopBit(b) = D!TopBit(b)
  /\ (b # W0 => WDiv(a, b) = D!WDiv(a, b))
=============================================================================
