------------------------------- MODULE PFABig -------------------------------
(***************************************************************************)
(* Arbitrary-precision integers (TLC's own integers are 32-bit).           *)
(* A big integer is <<sign, limbs>>: sign in {-1, 0, 1}, limbs little      *)
(* endian in base 10000, no leading zero limb.                             *)
(***************************************************************************)
EXTENDS PFABase

BB == 10000
RECURSIVE LTrim(_), LCmpR(_, _, _), LAddR(_, _, _), LSubR(_, _, _), LMul1R(_, _, _), LMulR(_, _)
LTrim(l) == IF l = <<>> THEN l ELSE IF Last(l) = 0 THEN LTrim(Front(l)) ELSE l
LGet(l, i) == IF i <= Len(l) THEN l[i] ELSE 0
LCmpR(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE LCmpR(a, b, i-1)
LCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE LCmpR(a, b, Len(a))
\* carry-propagating sum from limb i
LAddR(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == LGet(a, 1) + LGet(b, 1) + c
           ta == IF a = <<>> THEN a ELSE Tail(a)
           tb == IF b = <<>> THEN b ELSE Tail(b)
       IN <<s % BB>> \o LAddR(ta, tb, s \div BB)
LAdd(a, b) == LAddR(a, b, 0)
LSubR(a, b, c) ==   \* a >= b
  IF a = <<>> THEN <<>>
  ELSE LET s == a[1] - LGet(b, 1) - c
           tb == IF b = <<>> THEN b ELSE Tail(b)
       IN <<s % BB>> \o LSubR(Tail(a), tb, IF s < 0 THEN 1 ELSE 0)
LSub(a, b) == LTrim(LSubR(a, b, 0))
LMul1R(a, d, c) ==
  IF a = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[1] * d + c IN <<s % BB>> \o LMul1R(Tail(a), d, s \div BB)
LMul1(a, d) == LTrim(LMul1R(a, d, 0))
LMulR(a, b) == IF b = <<>> THEN <<>> ELSE LAdd(LMul1(a, b[1]), <<0>> \o LMulR(a, Tail(b)))
LMul(a, b) == LTrim(LMulR(a, b))
\* long division: the largest digit d with b*d <= r, by bisection
RECURSIVE LDigit(_, _, _, _), LDivR(_, _, _, _)
LDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN
       IF LCmp(LMul1(b, m), r) <= 0 THEN LDigit(r, b, m, hi) ELSE LDigit(r, b, lo, m-1)
LDivR(a, b, i, r) ==   \* <<quotient limbs (little endian), remainder>>
  IF i = 0 THEN <<<<>>, r>>
  ELSE LET r1 == LTrim(<<a[i]>> \o r)
           d == LDigit(r1, b, 0, BB-1)
           x == LDivR(a, b, i-1, LSub(r1, LMul1(b, d)))
       IN <<Append(x[1], d), x[2]>>
LDivMod(a, b) == LET x == LDivR(a, b, Len(a), <<>>) IN <<LTrim(x[1]), x[2]>>

Mk(s, l) == IF l = <<>> THEN <<0, <<>>>> ELSE <<s, l>>
RECURSIVE LimbsOfNat(_)
LimbsOfNat(n) == IF n = 0 THEN <<>> ELSE <<n % BB>> \o LimbsOfNat(n \div BB)
BigOf(n) == IF n = 0 THEN <<0, <<>>>> ELSE IF n > 0 THEN <<1, LimbsOfNat(n)>> ELSE <<-1, LimbsOfNat(-n)>>
DigitVal == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
   CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
     [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
RECURSIVE NatOfDigits(_, _), LimbsOfStr(_), DigitsOfNat(_), Pad4(_)
NatOfDigits(s, acc) == IF s = "" THEN acc ELSE NatOfDigits(SubSeq(s, 2, Len(s)), acc*10 + DigitVal[SubSeq(s, 1, 1)])
LimbsOfStr(s) == IF Len(s) <= 4 THEN <<NatOfDigits(s, 0)>>
                 ELSE <<NatOfDigits(SubSeq(s, Len(s)-3, Len(s)), 0)>> \o LimbsOfStr(SubSeq(s, 1, Len(s)-4))
BigOfStr(s) == IF SubSeq(s, 1, 1) = "-" THEN Mk(-1, LTrim(LimbsOfStr(SubSeq(s, 2, Len(s)))))
               ELSE Mk(1, LTrim(LimbsOfStr(s)))
DigitsOfNat(n) == IF n < 10 THEN ToString(n) ELSE DigitsOfNat(n \div 10) \o ToString(n % 10)
Pad4(s) == IF Len(s) >= 4 THEN s ELSE Pad4("0" \o s)
RECURSIVE StrLow(_)
StrLow(l) == IF l = <<>> THEN "" ELSE Pad4(ToString(Last(l))) \o StrLow(Front(l))
BigStr(b) == IF b[1] = 0 THEN "0"
             ELSE (IF b[1] < 0 THEN "-" ELSE "") \o ToString(Last(b[2])) \o StrLow(Front(b[2]))

GNeg(a) == <<-a[1], a[2]>>
GAbs(a) == <<Abs(a[1]), a[2]>>
GAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN <<a[1], LAdd(a[2], b[2])>>
  ELSE LET c == LCmp(a[2], b[2]) IN
       IF c = 0 THEN <<0, <<>>>>
       ELSE IF c > 0 THEN <<a[1], LSub(a[2], b[2])>> ELSE <<b[1], LSub(b[2], a[2])>>
GSub(a, b) == GAdd(a, GNeg(b))
GMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN <<0, <<>>>> ELSE <<a[1]*b[1], LMul(a[2], b[2])>>
GCmp(a, b) == IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1) ELSE a[1] * LCmp(a[2], b[2])
\* quotient truncated toward zero; b # 0
GQuot(a, b) == IF a[1] = 0 THEN a ELSE Mk(a[1]*b[1], LDivMod(a[2], b[2])[1])
\* remainder with the sign of the dividend
GRem(a, b) == IF a[1] = 0 THEN a ELSE Mk(a[1], LDivMod(a[2], b[2])[2])
\* remainder with the sign of the divisor
GMod(a, b) == LET r == GRem(a, b) IN IF r[1] = 0 \/ r[1] = b[1] THEN r ELSE GAdd(r, b)
\* quotient rounded toward minus infinity
GFloorDiv(a, b) == GQuot(GSub(a, GMod(a, b)), b)
RECURSIVE GPow(_, _)
GPow(a, n) == IF n = 0 THEN BigOf(1)
              ELSE LET h == GPow(a, n \div 2) IN IF n % 2 = 0 THEN GMul(h, h) ELSE GMul(a, GMul(h, h))

INTMIN == BigOfStr("-2147483648")
INTMAX == BigOfStr("2147483647")
LONGMIN == BigOfStr("-9223372036854775808")
LONGMAX == BigOfStr("9223372036854775807")
InInt(b) == GCmp(INTMIN, b) <= 0 /\ GCmp(b, INTMAX) <= 0
InLong(b) == GCmp(LONGMIN, b) <= 0 /\ GCmp(b, LONGMAX) <= 0

(***************************************************************************)
(* Integers as PFA values                                                  *)
(***************************************************************************)
IsInteger(v) == v[1] \in {"i", "I"}
ToBig(v) == IF v[1] = "i" THEN BigOf(v[2]) ELSE BigOfStr(v[2])
RECURSIVE LimbNat(_)
LimbNat(l) == IF l = <<>> THEN 0 ELSE l[1] + BB * LimbNat(Tail(l))
\* |n| < 2^31 -> <<"i", n>>, otherwise the decimal string
FromBig(b) == IF Len(b[2]) <= 2 \/ (Len(b[2]) = 3 /\ GCmp(GAbs(b), INTMAX) <= 0) THEN <<"i", b[1] * LimbNat(b[2])>>
              ELSE <<"I", BigStr(b)>>

(***************************************************************************)
(* Two's complement, 64 bits, least significant first.                     *)
(***************************************************************************)
RECURSIVE BitsOf(_, _)
BitsOf(a, n) ==   \* a >= 0
  IF n = 0 THEN <<>> ELSE <<IF a[1] = 0 THEN 0 ELSE a[2][1] % 2>> \o BitsOf(GQuot(a, BigOf(2)), n-1)
Bits64(a) == IF a[1] >= 0 THEN BitsOf(a, 64)
             ELSE LET b == BitsOf(GSub(GNeg(a), BigOf(1)), 64) IN TLCEval([i \in 1..64 |-> 1 - b[i]])
RECURSIVE BigOfBits(_)
BigOfBits(bs) == IF bs = <<>> THEN <<0, <<>>>> ELSE GAdd(BigOf(Head(bs)), GMul(BigOf(2), BigOfBits(Tail(bs))))
Big64(bs) == IF bs[64] = 0 THEN BigOfBits(bs)
             ELSE GSub(GNeg(BigOfBits(TLCEval([i \in 1..64 |-> 1 - bs[i]]))), BigOf(1))
BitAnd(a, b) == LET x == Bits64(a) y == Bits64(b) IN Big64(TLCEval([i \in 1..64 |-> x[i]*y[i]]))
BitOr(a, b)  == LET x == Bits64(a) y == Bits64(b) IN Big64(TLCEval([i \in 1..64 |-> x[i]+y[i]-x[i]*y[i]]))
BitXor(a, b) == LET x == Bits64(a) y == Bits64(b) IN Big64(TLCEval([i \in 1..64 |-> (x[i]+y[i]) % 2]))
=============================================================================
