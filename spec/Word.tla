-------------------------------- MODULE Word --------------------------------
(* 32-bit two's-complement words, represented by TLC's own (32-bit) integers  *)
(* in -2^31 .. 2^31-1.  TLC aborts on integer overflow, so every operator     *)
(* works on 16-bit halves.  The laws at the end are checked by WordLaws.tla.  *)
EXTENDS Integers, Sequences, Bitwise

IntMin == (-2147483647) - 1
IntMax == 2147483647

Lo(x) == x % 65536                    \* unsigned low half
Hi(x) == (x \div 65536) % 65536       \* unsigned high half (floor division)
SHalf(h) == IF h >= 32768 THEN h - 65536 ELSE h
Mk(h, l) == SHalf(h % 65536) * 65536 + l

Pow2 == [i \in 0..30 |-> 2^i]
PowW(s) == IF s = 31 THEN IntMin ELSE Pow2[s]

Add(a, b) == LET l == Lo(a) + Lo(b)
             IN Mk(Hi(a) + Hi(b) + l \div 65536, l % 65536)
WNot(a) == Mk(65535 - Hi(a), 65535 - Lo(a))
Neg(a) == Add(WNot(a), 1)
Sub(a, b) == Add(a, Neg(b))

\* low 16 bits of the product of two 16-bit halves
MulLo(x, y) == (x * (y % 256) + ((x * (y \div 256)) % 256) * 256) % 65536
Mul(a, b) ==
  LET x == Lo(a)  y == Lo(b)
      t0 == x * (y % 256)
      t1 == x * (y \div 256)
      s  == t0 + (t1 % 256) * 256
      hi == (s \div 65536 + t1 \div 256) % 65536
  IN Mk((hi + MulLo(Hi(a), y) + MulLo(x, Hi(b))) % 65536, s % 65536)

DivDefined(a, b) == b # 0 /\ ~(a = IntMin /\ b = -1)

\* truncating quotient of a by b > 0
QuotPos(a, b) == LET q == a \div b IN IF a < 0 /\ a % b # 0 THEN q + 1 ELSE q
Quot(a, b) ==
  IF b = IntMin THEN (IF a = IntMin THEN 1 ELSE 0)
  ELSE IF b > 0 THEN QuotPos(a, b)
  ELSE LET q == QuotPos(a, -b) IN -q
Rem(a, b) == Sub(a, Mul(Quot(a, b), b))

WAnd(a, b) == Mk(Hi(a) & Hi(b), Lo(a) & Lo(b))
WOr(a, b)  == Mk(Hi(a) | Hi(b), Lo(a) | Lo(b))
WXor(a, b) == Mk(Hi(a) ^^ Hi(b), Lo(a) ^^ Lo(b))

ShiftDefined(s) == s >= 0 /\ s <= 31
Shl(a, s) == Mul(a, PowW(s))
Sar(a, s) == IF s = 31 THEN (IF a < 0 THEN -1 ELSE 0) ELSE a \div Pow2[s]

B2I(b) == IF b THEN 1 ELSE 0

\* unsigned comparison, unsigned division by a small positive constant
ULt(a, b) == IF Hi(a) # Hi(b) THEN Hi(a) < Hi(b) ELSE Lo(a) < Lo(b)
UDivSmall(a, d) == LET h == Hi(a) r == h % d     \* d <= 32767
                   IN Mk(h \div d, (r * 65536 + Lo(a)) \div d)
URemSmall(a, d) == ((Hi(a) % d) * 65536 + Lo(a)) % d

\* bytes, little endian
Byte(a, i) == CASE i = 0 -> Lo(a) % 256 [] i = 1 -> Lo(a) \div 256
                [] i = 2 -> Hi(a) % 256 [] OTHER -> Hi(a) \div 256
FromBytes(b0, b1, b2, b3) == Mk(b3 * 256 + b2, b1 * 256 + b0)
SByte(b) == IF b >= 128 THEN b - 256 ELSE b

\* value of a binary C operator on two ints; <<>> when C leaves it undefined
BinOp(op, a, b) ==
  CASE op = "+"  -> <<Add(a, b)>>
    [] op = "-"  -> <<Sub(a, b)>>
    [] op = "*"  -> <<Mul(a, b)>>
    [] op = "/"  -> IF DivDefined(a, b) THEN <<Quot(a, b)>> ELSE <<>>
    [] op = "%"  -> IF DivDefined(a, b) THEN <<Rem(a, b)>> ELSE <<>>
    [] op = "&"  -> <<WAnd(a, b)>>
    [] op = "|"  -> <<WOr(a, b)>>
    [] op = "^"  -> <<WXor(a, b)>>
    [] op = "<<" -> IF ShiftDefined(b) THEN <<Shl(a, b)>> ELSE <<>>
    [] op = ">>" -> IF ShiftDefined(b) THEN <<Sar(a, b)>> ELSE <<>>
    [] op = "==" -> <<B2I(a = b)>>
    [] op = "!=" -> <<B2I(a # b)>>
    [] op = "<"  -> <<B2I(a < b)>>
    [] op = "<=" -> <<B2I(a <= b)>>
    [] op = ">"  -> <<B2I(a > b)>>
    [] op = ">=" -> <<B2I(a >= b)>>
UnOp(op, a) ==
  CASE op = "-" -> Neg(a) [] op = "~" -> WNot(a) [] op = "!" -> B2I(a = 0)
    [] op = "+" -> a

\* C's binding strength of the binary operators (higher binds tighter)
Prec(op) ==
  CASE op \in {"*", "/", "%"} -> 10 [] op \in {"+", "-"} -> 9
    [] op \in {"<<", ">>"} -> 8     [] op \in {"<", "<=", ">", ">="} -> 7
    [] op \in {"==", "!="} -> 6     [] op = "&" -> 5 [] op = "^" -> 4
    [] op = "|" -> 3 [] op = "&&" -> 2 [] op = "||" -> 1
=============================================================================
