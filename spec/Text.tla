-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text as the tools print it: strings, TLC's \o, Len and SubSeq on them.  *)
(***************************************************************************)
EXTENDS Word, TLC

Nibbles == "0123456789abcdef"
Nibble(n) == SubSeq(Nibbles, n + 1, n + 1)
HexByte(n) == Nibble(n \div 16) \o Nibble(n % 16)

RECURSIVE HexBytes(_)
HexBytes(s) == IF s = << >> THEN ""
               ELSE HexByte(Head(s)) \o HexBytes(Tail(s))

\* %016x
Hex16(w) == HexByte(w[8]) \o HexByte(w[7]) \o HexByte(w[6]) \o HexByte(w[5])
            \o HexByte(w[4]) \o HexByte(w[3]) \o HexByte(w[2]) \o HexByte(w[1])
HexLow(w, n) == LET x == Hex16(w) IN SubSeq(x, 17 - n, 16)

\* The number of digits that count, at least one.
RECURSIVE HexLen(_, _)
HexLen(w, n) ==
  IF n = 1 THEN 1
  ELSE IF Nibble(IF n % 2 = 0 THEN w[n \div 2] \div 16
                 ELSE w[(n + 1) \div 2] % 16) # "0" THEN n
  ELSE HexLen(w, n - 1)
Hex(w) == HexLow(w, HexLen(w, 16))      \* %x
HexI(n) == Hex(WInt(n))
Dec(n) == ToString(n)                   \* %u

\* %0nx of a value that may need more.
HexPad(w, n) == LET k == HexLen(w, 16) IN HexLow(w, IF k < n THEN n ELSE k)

RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)
Pad(s, n) == s \o Spaces(n - Len(s))    \* %-ns

Has(b, s) == IF b THEN s ELSE ""

\* k/256 with three digits, ties to even (%.3f); its integral part must fit.
Thirds(k) == LET n == k * 125
                 q == n \div 32
                 r == n % 32
             IN IF r > 16 \/ (r = 16 /\ q % 2 = 1) THEN q + 1 ELSE q
Digits3(n) == Dec(n \div 100) \o Dec((n \div 10) % 10) \o Dec(n % 10)
Fixed8(w) == Dec(WToInt(WShr(w, 8))) \o "." \o Digits3(Thirds(w[1]))
Fixed8Fits(w) == WFits(w, 38)
=============================================================================
