------------------------------ MODULE PFABase ------------------------------
(***************************************************************************)
(* Values of the PFA language and exact arithmetic on them.                *)
(*                                                                         *)
(* Values are tagged tuples:                                               *)
(*   <<"n">>            null            <<"b", TRUE>>      boolean         *)
(*   <<"i", 5>>         number, integer valued (|n| < 2^31)                *)
(*   <<"q", n, d>>      number n/d, d a power of two > 1, n odd            *)
(*   <<"I", "123..">>   integer outside the 32-bit range (opaque)          *)
(*   <<"F", "nan">>     nan, inf, -inf, or a float with no small dyadic    *)
(*   <<"s", "abc">>     string          <<"y", <<1,2>>>>   bytes           *)
(*   <<"a", <<v..>>>>   array           <<"m", [k |-> v]>> map             *)
(*   a record is a map from field names; an enum symbol is its string      *)
(*   <<"P">>            "poison": the specification does not say           *)
(* Union tags are erased: a union value is the value of its branch.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NULL   == <<"n">>
TRUEV  == <<"b", TRUE>>
FALSEV == <<"b", FALSE>>
POISON == <<"P">>
B(x) == <<"b", x>>
I(n) == <<"i", n>>
S(s) == <<"s", s>>
A(q) == <<"a", q>>
M(f) == <<"m", f>>
NAN == <<"F", "nan">>

IMAX == 2147483647
IMIN == -2147483647     \* one more than the PFA minimum: the spec stays symmetric

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Range(f) == {f[x] : x \in DOMAIN f}
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s)-1)
Rev(s) == TLCEval([i \in 1..Len(s) |-> s[Len(s)+1-i]])
EmptyFn == [x \in {} |-> NULL]
Put(f, k, v) == TLCEval([x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]])
Drop(f, k) == TLCEval([x \in (DOMAIN f) \ {k} |-> f[x]])
Restr(f, D) == TLCEval([x \in D |-> f[x]])

RECURSIVE SeqFold(_, _, _)
SeqFold(Op(_, _), base, s) ==
  IF s = <<>> THEN base ELSE SeqFold(Op, Op(base, Head(s)), Tail(s))
SeqMap(Op(_), s) == TLCEval([i \in 1..Len(s) |-> Op(s[i])])
SeqFilter(Test(_), s) ==
  LET add(acc, x) == IF Test(x) THEN Append(acc, x) ELSE acc
  IN  SeqFold(add, <<>>, s)
SeqIndex(s, x) == IF \E i \in 1..Len(s) : s[i] = x
                  THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x
                  ELSE 0
SeqHas(s, x) == \E i \in 1..Len(s) : s[i] = x
RECURSIVE FlattenSeq2(_)
FlattenSeq2(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeq2(Tail(ss))
\* 0-based half-open slice
Slice(s, from, to) == IF to <= from THEN <<>> ELSE SubSeq(s, from+1, to)

(***************************************************************************)
(* Strings: TLA+ strings over printable ASCII, ordered by code point.      *)
(***************************************************************************)
ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharAt(s, i) == SubSeq(s, i, i)          \* 1-based, a one-character string
CODE == [c \in {CharAt(ASCII, i) : i \in 1..95} |-> 31 + (CHOOSE i \in 1..95 : CharAt(ASCII, i) = c)]
Codes(s) == TLCEval([i \in 1..Len(s) |-> CODE[CharAt(s, i)]])
RECURSIVE CmpSeq(_, _, _)
\* three-way lexicographic comparison of integer sequences from position i
CmpSeq(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1
  ELSE IF a[i] > b[i] THEN 1
  ELSE CmpSeq(a, b, i+1)
CmpStr(a, b) == IF a = b THEN 0 ELSE CmpSeq(Codes(a), Codes(b), 1)
RECURSIVE SortKeysR(_)
SortKeysR(ks) == IF ks = {} THEN <<>>
  ELSE LET k == CHOOSE x \in ks : \A y \in ks : CmpStr(x, y) <= 0
       IN <<k>> \o SortKeysR(ks \ {k})
SortedKeys(f) == SortKeysR(DOMAIN f)

(***************************************************************************)
(* Exact dyadic arithmetic; anything that leaves the small range is POISON *)
(***************************************************************************)
IsNum(v) == v[1] \in {"i", "q"}
Num(v) == v[2]
Den(v) == IF v[1] = "q" THEN v[3] ELSE 1
AddOk(a, b) == IF b >= 0 THEN a <= IMAX - b ELSE a >= IMIN - b
MulOk(a, b) == a = 0 \/ b = 0 \/ Abs(b) <= IMAX \div Abs(a)
RECURSIVE Norm(_, _)
Norm(n, d) == IF d = 1 THEN <<"i", n>>
              ELSE IF n % 2 = 0 THEN Norm(n \div 2, d \div 2)
              ELSE <<"q", n, d>>
NAdd(x, y) ==
  IF ~IsNum(x) \/ ~IsNum(y) THEN POISON
  ELSE IF x[1] = "i" /\ y[1] = "i"
       THEN IF AddOk(x[2], y[2]) THEN I(x[2] + y[2]) ELSE POISON
  ELSE LET d == Max2(Den(x), Den(y))   \* powers of two: the larger is a multiple
           mx == d \div Den(x)
           my == d \div Den(y)
       IN IF MulOk(Num(x), mx) /\ MulOk(Num(y), my) /\ AddOk(Num(x)*mx, Num(y)*my)
          THEN Norm(Num(x)*mx + Num(y)*my, d) ELSE POISON
NNeg(x) == IF ~IsNum(x) THEN POISON ELSE IF x[1] = "i" THEN I(-x[2]) ELSE <<"q", -x[2], x[3]>>
NSub(x, y) == NAdd(x, NNeg(y))
NMul(x, y) ==
  IF ~IsNum(x) \/ ~IsNum(y) THEN POISON
  ELSE IF MulOk(Num(x), Num(y)) /\ MulOk(Den(x), Den(y))
       THEN Norm(Num(x)*Num(y), Den(x)*Den(y)) ELSE POISON
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE IsPow2(_)
IsPow2(n) == n = 1 \/ (n > 1 /\ n % 2 = 0 /\ IsPow2(n \div 2))
\* exact quotient when it is dyadic, POISON otherwise (also for division by zero)
NDiv(x, y) ==
  IF ~IsNum(x) \/ ~IsNum(y) \/ Num(y) = 0 THEN POISON
  ELSE IF ~(MulOk(Num(x), Den(y)) /\ MulOk(Den(x), Num(y))) THEN POISON
  ELSE LET n0 == Num(x) * Den(y)
           d0 == Den(x) * Num(y)
           s  == IF d0 < 0 THEN -1 ELSE 1
           g  == IF n0 = 0 THEN Abs(d0) ELSE Gcd(Abs(n0), Abs(d0))
           n  == (s * n0) \div g
           d  == Abs(d0) \div g
       IN IF IsPow2(d) THEN Norm(n, d) ELSE POISON
NCmp(x, y) ==   \* -1, 0, 1 (both numbers)
  IF x[1] = "i" /\ y[1] = "i" THEN (IF x[2] < y[2] THEN -1 ELSE IF x[2] > y[2] THEN 1 ELSE 0)
  ELSE LET z == NSub(x, y) IN
       IF z = POISON THEN (IF Num(x) < 0 /\ Num(y) >= 0 THEN -1 ELSE IF Num(x) >= 0 /\ Num(y) < 0 THEN 1 ELSE 2)
       ELSE IF Num(z) < 0 THEN -1 ELSE IF Num(z) > 0 THEN 1 ELSE 0
\* floor of a dyadic, as an integer
NFloor(x) == IF x[1] = "i" THEN x[2] ELSE x[2] \div x[3]   \* TLA \div floors
NCeil(x) == -NFloor(NNeg(x))
\* truncating integer division and remainders (second argument non-zero)
TruncDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
\* PFA %  : sign of the divisor ; %% : sign of the dividend
ModFloor(a, b) == IF b > 0 THEN a % b ELSE -((-a) % (-b))
RemTrunc(a, b) == a - b * TruncDiv(a, b)

(***************************************************************************)
(* Does a value contain poison (or numbers outside the modelled range)?    *)
(***************************************************************************)
RECURSIVE Poisoned(_)
Poisoned(v) ==
  CASE v[1] = "P" -> TRUE
    [] v[1] = "a" -> \E i \in 1..Len(v[2]) : Poisoned(v[2][i])
    [] v[1] = "m" -> \E k \in DOMAIN v[2] : Poisoned(v[2][k])
    [] OTHER -> FALSE

=============================================================================
