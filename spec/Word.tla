-------------------------------- MODULE Word --------------------------------
(***************************************************************************)
(* 64-bit words as tuples of eight bytes, least significant byte first.    *)
(* TLC integers have 32 bits, so every address, payload and time is a      *)
(* word.  All operators are total on words.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

W0 == <<0, 0, 0, 0, 0, 0, 0, 0>>
WMax == <<255, 255, 255, 255, 255, 255, 255, 255>>

\* Bytes f(1) .. f(8) (a tuple, which TLC evaluates once, unlike a function).
W8(f(_)) == << f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8) >>

\* A non-negative TLC integer as a word.
WInt(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256,
              (n \div 16777216) % 256, 0, 0, 0, 0 >>

\* The word with the bytes of sequence s (at most eight), zero extended.
WBytes(s) == W8(LAMBDA k : IF k <= Len(s) THEN s[k] ELSE 0)

\* The n least significant bytes.
WLow(w, n) == SubSeq(w, 1, n)

\* Zero all but the n least significant bytes.
WTrunc(w, n) == W8(LAMBDA k : IF k <= n THEN w[k] ELSE 0)

\* The word that equals lo in its n low bytes and hi above.
WMerge(hi, lo, n) == W8(LAMBDA k : IF k <= n THEN lo[k] ELSE hi[k])

\* Sign extend from n bytes.
WSext(w, n) == LET s == IF w[n] >= 128 THEN 255 ELSE 0
               IN W8(LAMBDA k : IF k <= n THEN w[k] ELSE s)

WAnd(a, b) == W8(LAMBDA k : a[k] & b[k])
WOr(a, b)  == W8(LAMBDA k : a[k] | b[k])
WNot(a)    == W8(LAMBDA k : 255 - a[k])

RECURSIVE WAddC(_, _, _, _)
WAddC(a, b, c, k) ==
  IF k > 8 THEN << >>
  ELSE LET s == a[k] + b[k] + c
       IN << s % 256 >> \o WAddC(a, b, s \div 256, k + 1)

WAdd(a, b) == WAddC(a, b, 0, 1)
WNeg(a) == WAdd(WNot(a), WInt(1))
WSub(a, b) == WAddC(a, WNot(b), 1, 1)
WAddI(a, n) == IF n >= 0 THEN WAdd(a, WInt(n)) ELSE WSub(a, WInt(-n))

RECURSIVE WCmp(_, _, _)
\* -1, 0, 1: unsigned comparison of the k low bytes.
WCmp(a, b, k) ==
  IF k = 0 THEN 0
  ELSE IF a[k] < b[k] THEN -1
  ELSE IF a[k] > b[k] THEN 1
  ELSE WCmp(a, b, k - 1)
WLT(a, b) == WCmp(a, b, 8) < 0
WLE(a, b) == WCmp(a, b, 8) <= 0

\* Shift left / right by n bits, 0 <= n < 64.
WShl(w, n) ==
  LET q == n \div 8  r == n % 8 IN
  W8(LAMBDA k :
     LET hi == IF k - q >= 1 THEN w[k - q] ELSE 0
         lo == IF k - q - 1 >= 1 THEN w[k - q - 1] ELSE 0
     IN ((hi * 2^r) % 256) + (lo \div 2^(8 - r)))
WShr(w, n) ==
  LET q == n \div 8  r == n % 8 IN
  W8(LAMBDA k :
     LET lo == IF k + q <= 8 THEN w[k + q] ELSE 0
         hi == IF k + q + 1 <= 8 THEN w[k + q + 1] ELSE 0
     IN (lo \div 2^r) + ((hi * 2^(8 - r)) % 256))

\* Bit n (0..63).
WBit(w, n) == (w[(n \div 8) + 1] \div 2^(n % 8)) % 2

\* 2^n as a word.
WPow2(n) == W8(LAMBDA k : IF k = (n \div 8) + 1 THEN 2^(n % 8) ELSE 0)

\* The words fits into n bits.
WFits(w, n) == n >= 64 \/ WShr(w, n) = W0

\* The value of a word known to be small (below 2^31).
WToInt(w) == w[1] + 256 * w[2] + 65536 * w[3] + 16777216 * w[4]

RECURSIVE WMulIA(_, _, _, _)
WMulIA(a, n, c, k) ==
  IF k > 8 THEN << >>
  ELSE LET s == a[k] * n + c
       IN << s % 256 >> \o WMulIA(a, n, s \div 256, k + 1)
\* Multiply by an integer below 2^22, modulo 2^64.
WMulI(a, n) == WMulIA(a, n, 0, 1)

RECURSIVE WMulA(_, _, _)
WMulA(a, b, k) ==
  IF k > 8 THEN W0
  ELSE WAdd(WShl(WMulI(a, b[k]), 8 * (k - 1)), WMulA(a, b, k + 1))
\* Product modulo 2^64.
WMul(a, b) == WMulA(a, b, 1)

RECURSIVE WDivA(_, _, _, _, _)
WDivA(a, b, bit, q, r) ==
  IF bit < 0 THEN [q |-> q, r |-> r]
  ELSE LET top == WBit(r, 63)
           r1 == WOr(WShl(r, 1), WInt(WBit(a, bit)))
       IN IF top = 1 \/ WLE(b, r1)
            THEN WDivA(a, b, bit - 1, WOr(q, WPow2(bit)), WSub(r1, b))
            ELSE WDivA(a, b, bit - 1, q, r1)
\* The index of the highest bit set in byte x > 0.
RECURSIVE HiBit(_)
HiBit(x) == IF x <= 1 THEN 0 ELSE 1 + HiBit(x \div 2)

RECURSIVE TopByte(_, _)
TopByte(w, k) == IF k = 0 THEN 0 ELSE IF w[k] # 0 THEN k ELSE TopByte(w, k - 1)

\* The bit index of the most significant set bit; -1 if there is none.
TopBit(w) == LET k == TopByte(w, 8)
             IN IF k = 0 THEN -1 ELSE 8 * (k - 1) + HiBit(w[k])

\* Unsigned quotient and remainder (b # 0).
WDivMod(a, b) == WDivA(a, b, TopBit(a), W0, W0)
WDiv(a, b) == WDivMod(a, b).q
=============================================================================
