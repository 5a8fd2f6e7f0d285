------------------------------- MODULE PFALib -------------------------------
(***************************************************************************)
(* The function library: core, arrays, maps, strings, bytes, casts, enum,  *)
(* fixed, parse, math.  Lib(D, f, pts, rt, a) is the result of applying    *)
(* library function f (resolved to parameter types pts and result type rt) *)
(* to argument values a: <<"v", value>>, <<"rt", code>> or <<"skip">>      *)
(* when the specification leaves the result open.                          *)
(***************************************************************************)
EXTENDS PFATypes, PFABig, Json, IOUtils

SIGRAW == JsonDeserialize(IF "SIGNATURES" \in DOMAIN IOEnv THEN IOEnv.SIGNATURES ELSE "signatures.json")
\* the document language version the engine implements (0.8.1) decides which signatures are alive
ThisVersion == 801
Alive(c, v) == (c.life[1] = -1 \/ v >= c.life[1]) /\ (c.life[3] = -1 \/ v < c.life[3])
SIGS == [f \in DOMAIN SIGRAW |-> SIGRAW[f]]
KNOWN == DOMAIN SIGRAW

VAL(v) == <<"v", v>>
RT(c) == <<"rt", c>>
SKIP == <<"skip">>

(***************************************************************************)
(* The total order on values of a type.  2 = not determined here.          *)
(***************************************************************************)
RECURSIVE Cmp(_, _, _, _), CmpArr(_, _, _, _, _), CmpRec(_, _, _, _)
BigCmpI(x, y) == GCmp(ToBig(x), ToBig(y))
IsNan(v) == v = NAN
NumCmpV(x, y) ==
  IF IsNan(x) THEN (IF IsNan(y) THEN 0 ELSE 1)
  ELSE IF IsNan(y) THEN -1
  ELSE IF x = y /\ x[1] # "P" THEN 0
  ELSE IF x = <<"F", "inf">> \/ y = <<"F", "-inf">> THEN 1
  ELSE IF x = <<"F", "-inf">> \/ y = <<"F", "inf">> THEN -1
  ELSE IF IsInteger(x) /\ IsInteger(y) THEN BigCmpI(x, y)
  ELSE IF IsNum(x) /\ IsNum(y) THEN NCmp(x, y)
  ELSE IF IsNum(x) /\ y[1] = "I" THEN (IF ToBig(y)[1] > 0 THEN -1 ELSE 1)
  ELSE IF x[1] = "I" /\ IsNum(y) THEN (IF ToBig(x)[1] > 0 THEN 1 ELSE -1)
  ELSE 2
FieldOrder(fld) == IF Len(fld) >= 3 THEN fld[3] ELSE "ascending"
Branch(D, t, v) ==   \* the union branches a value may belong to
  {i \in 1..Len(t[2]) : Conforms(D, v, t[2][i])}
CmpArr(D, t, x, y, i) ==
  IF i > Len(x) THEN (IF i > Len(y) THEN 0 ELSE -1)
  ELSE IF i > Len(y) THEN 1
  ELSE LET c == Cmp(D, t, x[i], y[i]) IN IF c # 0 THEN c ELSE CmpArr(D, t, x, y, i+1)
CmpRec(D, flds, x, y) ==
  IF flds = <<>> THEN 0
  ELSE LET fld == Head(flds) IN
       IF FieldOrder(fld) = "ignore" THEN CmpRec(D, Tail(flds), x, y)
       ELSE LET c == Cmp(D, fld[2], x[fld[1]], y[fld[1]]) IN
            IF c = 2 THEN 2
            ELSE IF c # 0 THEN (IF FieldOrder(fld) = "descending" THEN -c ELSE c)
            ELSE CmpRec(D, Tail(flds), x, y)
Cmp(D, t, x, y) ==
  CASE t[1] = "null" -> 0
    [] t[1] = "boolean" -> IF x = y THEN 0 ELSE IF x = FALSEV THEN -1 ELSE 1
    [] t[1] \in {"int", "long", "float", "double"} -> NumCmpV(x, y)
    [] t[1] = "string" -> IF x[1] # "s" \/ y[1] # "s" THEN 2 ELSE CmpStr(x[2], y[2])
    [] t[1] \in {"bytes", "fixed"} -> CmpSeq(x[2], y[2], 1)
    [] t[1] = "enum" -> LET i == SeqIndex(D[t[2]].syms, x[2]) j == SeqIndex(D[t[2]].syms, y[2])
                        IN IF i = 0 \/ j = 0 THEN 2 ELSE IF i < j THEN -1 ELSE IF i > j THEN 1 ELSE 0
    [] t[1] = "array" -> CmpArr(D, t[2], x[2], y[2], 1)
    [] t[1] = "rec" -> CmpRec(D, D[t[2]].fields, x[2], y[2])
    [] t[1] = "union" ->
         LET bx == Branch(D, t, x) by == Branch(D, t, y) IN
         IF Cardinality(bx) # 1 \/ Cardinality(by) # 1 THEN 2
         ELSE LET i == CHOOSE i \in bx : TRUE  j == CHOOSE j \in by : TRUE IN
              IF i < j THEN -1 ELSE IF i > j THEN 1 ELSE Cmp(D, t[2][i], x, y)
    [] OTHER -> 2
RECURSIVE HasMapIn(_, _, _)
HasMapIn(D, t, seen) ==   \* seen: the record types being looked into (types may be recursive)
  CASE t[1] = "map" -> TRUE
    [] t[1] = "array" -> HasMapIn(D, t[2], seen)
    [] t[1] = "union" -> \E i \in 1..Len(t[2]) : HasMapIn(D, t[2][i], seen)
    [] t[1] = "rec" -> t[2] \notin seen /\ \E i \in 1..Len(D[t[2]].fields) : HasMapIn(D, D[t[2]].fields[i][2], seen \cup {t[2]})
    [] OTHER -> FALSE
HasMap(D, t) == HasMapIn(D, t, {})

\* stable merge-free insertion sort of a sequence by Cmp on projection: items <<key value, payload>>
RECURSIVE InsCmp(_, _, _, _), SortCmp(_, _, _)
InsCmp(D, t, s, x) ==
  IF s = <<>> THEN <<x>>
  ELSE IF Cmp(D, t, x[1], Head(s)[1]) < 0 THEN <<x>> \o s
  ELSE <<Head(s)>> \o InsCmp(D, t, Tail(s), x)
SortCmp(D, t, s) == IF s = <<>> THEN <<>> ELSE InsCmp(D, t, SortCmp(D, t, Front(s)), Last(s))
\* descending, ties in original order
RECURSIVE InsDesc(_, _, _, _), SortDesc(_, _, _)
InsDesc(D, t, s, x) ==
  IF s = <<>> THEN <<x>>
  ELSE IF Cmp(D, t, Head(s)[1], x[1]) < 0 THEN <<x>> \o s
  ELSE <<Head(s)>> \o InsDesc(D, t, Tail(s), x)
SortDesc(D, t, s) == IF s = <<>> THEN <<>> ELSE InsDesc(D, t, SortDesc(D, t, Front(s)), Last(s))
\* every pair comparable?
AllCmp(D, t, xs) == \A i, j \in 1..Len(xs) : Cmp(D, t, xs[i], xs[j]) # 2
Plain(s) == TLCEval([i \in 1..Len(s) |-> s[i][1]])
Keyed(xs) == TLCEval([i \in 1..Len(xs) |-> <<xs[i], i-1>>])

(***************************************************************************)
(* Integer arithmetic: exact, or the overflow code                         *)
(***************************************************************************)
IntResult(t, b, code) ==   \* t is "int" or "long"
  IF t = "int" THEN (IF InInt(b) THEN VAL(FromBig(b)) ELSE RT(code))
  ELSE (IF InLong(b) THEN VAL(FromBig(b)) ELSE RT(code+1))
VALP(v) == IF v = POISON THEN SKIP ELSE VAL(v)
Special(x) == x[1] \in {"F", "I"}
PowSmall(x, n) == LET RECURSIVE p(_) p(k) == IF k = 0 THEN I(1) ELSE NMul(x, p(k-1)) IN p(n)
\* IEEE arithmetic with not-a-number and infinities
IsInf(v) == v \in {<<"F", "inf">>, <<"F", "-inf">>}
Inf(sg) == <<"F", IF sg > 0 THEN "inf" ELSE "-inf">>
SignOf(v) == IF v = <<"F", "inf">> THEN 1 ELSE IF v = <<"F", "-inf">> THEN -1
             ELSE IF v[1] = "I" THEN (IF SubSeq(v[2], 1, 1) = "-" THEN -1 ELSE 1)
             ELSE IF v[2] > 0 THEN 1 ELSE IF v[2] < 0 THEN -1 ELSE 0
Sized(v) == IsNan(v) \/ IsInf(v) \/ v[1] \in {"i", "q", "I"}
SpecialArith(f, x, y) ==
  IF ~Sized(x) \/ ~Sized(y) THEN SKIP
  ELSE IF IsNan(x) \/ IsNan(y) THEN VAL(NAN)
  ELSE IF ~IsInf(x) /\ ~IsInf(y) THEN SKIP
  ELSE CASE f = "+" -> VAL(IF IsInf(x) /\ IsInf(y) THEN (IF x = y THEN x ELSE NAN) ELSE IF IsInf(x) THEN x ELSE y)
         [] f = "-" -> VAL(IF IsInf(x) /\ IsInf(y) THEN (IF x # y THEN x ELSE NAN) ELSE IF IsInf(x) THEN x ELSE Inf(-SignOf(y)))
         [] f = "*" -> VAL(IF SignOf(x) * SignOf(y) = 0 THEN NAN ELSE Inf(SignOf(x) * SignOf(y)))
         [] f = "/" -> IF IsInf(x) /\ IsInf(y) THEN VAL(NAN) ELSE IF IsInf(y) THEN VAL(I(0)) ELSE IF SignOf(y) = 0 THEN SKIP ELSE VAL(Inf(SignOf(x) * SignOf(y)))
         [] OTHER -> SKIP
Arith(f, t, a) ==
  LET x == a[1]  y == a[Len(a)] IN
  IF t \in {"int", "long"} THEN
    (CASE f = "+" -> IntResult(t, GAdd(ToBig(x), ToBig(y)), 18000)
       [] f = "-" -> IntResult(t, GSub(ToBig(x), ToBig(y)), 18010)
       [] f = "*" -> IntResult(t, GMul(ToBig(x), ToBig(y)), 18020)
       [] f = "//" -> IF y = I(0) THEN RT(18040) ELSE IntResult(t, GQuot(ToBig(x), ToBig(y)), 18041)
       [] f = "u-" -> IntResult(t, GNeg(ToBig(x)), 18050)
       [] f = "%" -> IF y = I(0) THEN RT(18060) ELSE IntResult(t, GMod(ToBig(x), ToBig(y)), 0)
       [] f = "%%" -> IF y = I(0) THEN RT(18070) ELSE IntResult(t, GRem(ToBig(x), ToBig(y)), 0)
       [] f = "**" ->
            LET X == ToBig(x) IN
            IF y[1] = "i" /\ y[2] >= 0 /\ y[2] <= 64 THEN IntResult(t, GPow(X, y[2]), 18080)
            ELSE IF ToBig(y)[1] > 0 THEN   \* exponent above 64
                 (IF x \in {I(0), I(1)} THEN VAL(x)
                  ELSE IF x = I(-1) THEN VAL(I(IF GMod(ToBig(y), BigOf(2))[1] = 0 THEN 1 ELSE -1))
                  ELSE RT(IF t = "int" THEN 18080 ELSE 18081))
            ELSE SKIP
       [] OTHER -> SKIP)
  ELSE IF Special(x) \/ Special(y) THEN
    (IF f = "u-" THEN (IF x = <<"F", "inf">> THEN VAL(<<"F", "-inf">>) ELSE IF x = <<"F", "-inf">> THEN VAL(<<"F", "inf">>) ELSE IF IsNan(x) THEN VAL(x) ELSE SKIP)
     ELSE IF f \in {"+", "-", "*"} THEN SpecialArith(f, x, y)
     ELSE IF f \in {"%", "%%"} /\ (IsNan(x) \/ IsNan(y) \/ IsInf(x)) THEN VAL(NAN) ELSE SKIP)
  ELSE
    (CASE f = "+" -> VALP(NAdd(x, y))
       [] f = "-" -> VALP(NSub(x, y))
       [] f = "*" -> VALP(NMul(x, y))
       [] f = "u-" -> VALP(NNeg(x))
       [] f \in {"%", "%%"} ->
            IF Num(y) = 0 THEN VAL(NAN)
            ELSE LET d == Max2(Den(x), Den(y))  mx == d \div Den(x)  my == d \div Den(y) IN
                 IF ~MulOk(Num(x), mx) \/ ~MulOk(Num(y), my) THEN SKIP
                 ELSE LET p == Num(x)*mx  q == Num(y)*my IN
                      VAL(Norm(IF f = "%" THEN ModFloor(p, q) ELSE RemTrunc(p, q), d))
       [] f = "**" -> IF y[1] = "i" /\ y[2] >= 0 /\ y[2] <= 8 THEN VALP(PowSmall(x, y[2]))
                      ELSE IF y[1] = "i" /\ y[2] < 0 /\ y[2] >= -8 /\ Num(x) # 0
                           THEN VALP(NDiv(I(1), PowSmall(x, -y[2]))) ELSE SKIP
       [] OTHER -> SKIP)
Divide(x, y) ==
  IF Special(x) \/ Special(y) THEN SpecialArith("/", x, y)
  ELSE IF Num(y) = 0 THEN VAL(IF Num(x) > 0 THEN <<"F", "inf">> ELSE IF Num(x) < 0 THEN <<"F", "-inf">> ELSE NAN)
  ELSE VALP(NDiv(x, y))

CoreNames == {"+", "-", "*", "/", "//", "u-", "%", "%%", "**", "cmp", "==", "!=", "<", "<=", ">", ">=", "max", "min",
              "!", "^^", "!!!", "&", "|", "^", "~"}
Core(D, f, pts, rt, a) ==
  CASE f \in {"+", "-", "*", "//", "u-", "%", "%%", "**"} -> Arith(f, rt[1], a)
    [] f = "/" -> Divide(a[1], a[2])
    [] f \in {"cmp", "==", "!=", "<", "<=", ">", ">=", "max", "min"} ->
         IF HasMap(D, pts[1]) THEN SKIP
         ELSE LET c == Cmp(D, pts[1], a[1], a[2]) IN
              IF c = 2 THEN SKIP
              ELSE VAL(CASE f = "cmp" -> I(c)
                         [] f = "==" -> B(c = 0) [] f = "!=" -> B(c # 0)
                         [] f = "<" -> B(c < 0) [] f = "<=" -> B(c <= 0)
                         [] f = ">" -> B(c > 0) [] f = ">=" -> B(c >= 0)
                         [] f = "max" -> (IF c >= 0 THEN a[1] ELSE a[2])
                         [] OTHER -> (IF c < 0 THEN a[1] ELSE a[2]))
    [] f = "!" -> VAL(B(a[1] = FALSEV))
    [] f = "^^" -> VAL(B(a[1] # a[2]))
    [] f = "!!!" -> VAL(IF a[1] = NULL THEN NULL ELSE B(a[1] = FALSEV))
    [] f = "&" -> VAL(FromBig(BitAnd(ToBig(a[1]), ToBig(a[2]))))
    [] f = "|" -> VAL(FromBig(BitOr(ToBig(a[1]), ToBig(a[2]))))
    [] f = "^" -> VAL(FromBig(BitXor(ToBig(a[1]), ToBig(a[2]))))
    [] f = "~" -> VAL(FromBig(GSub(GNeg(ToBig(a[1])), BigOf(1))))
    [] OTHER -> SKIP

(***************************************************************************)
(* Arrays                                                                  *)
(***************************************************************************)
\* Python-style clamped start/end: <<from, to>> 0-based, half open
StartEnd(n, s, e) ==
  LET ns == Min2(n, Max2(0, IF s >= 0 THEN s ELSE n + s))
      ne == Min2(n, Max2(0, IF e >= 0 THEN e ELSE n + e))
  IN <<ns, Max2(ns, ne)>>
NegIndex(n, i) == IF i >= 0 THEN i ELSE n + i
\* does needle occur at 1-based position p
OccursAt(h, nd, p) == p + Len(nd) - 1 <= Len(h) /\ \A k \in 1..Len(nd) : h[p+k-1] = nd[k]
Occ(h, nd) == {p \in 1..(Len(h) - Len(nd) + 1) : OccursAt(h, nd, p)}
MinS(s) == CHOOSE x \in s : \A y \in s : x <= y
MaxS(s) == CHOOSE x \in s : \A y \in s : x >= y
RECURSIVE DistinctR(_, _)
DistinctR(s, acc) == IF s = <<>> THEN acc ELSE DistinctR(Tail(s), IF SeqHas(acc, Head(s)) THEN acc ELSE Append(acc, Head(s)))
RECURSIVE SumR(_, _), ProdR(_, _), BSumR(_), BProdR(_)
SumR(s, acc) == IF s = <<>> THEN acc ELSE SumR(Tail(s), NAdd(acc, Head(s)))
ProdR(s, acc) == IF s = <<>> THEN acc ELSE ProdR(Tail(s), NMul(acc, Head(s)))
BSumR(s) == IF s = <<>> THEN BigOf(0) ELSE GAdd(ToBig(Head(s)), BSumR(Tail(s)))
BProdR(s) == IF s = <<>> THEN BigOf(1) ELSE GMul(ToBig(Head(s)), BProdR(Tail(s)))
RECURSIVE Combos(_, _), PermsR(_), Windows(_, _, _)
Combos(s, k) == IF k = 0 THEN <<<<>>>> ELSE IF Len(s) < k THEN <<>>
                ELSE LET w == Combos(Tail(s), k-1) IN TLCEval([i \in 1..Len(w) |-> <<Head(s)>> \o w[i]]) \o Combos(Tail(s), k)
PermsR(s) ==  \* in order of position
  IF s = <<>> THEN <<<<>>>>
  ELSE FlattenSeq2(TLCEval([i \in 1..Len(s) |->
         LET r == PermsR(SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))) IN TLCEval([j \in 1..Len(r) |-> <<s[i]>> \o r[j]])]))
Windows(s, size, step) == IF Len(s) < size THEN <<>>
                          ELSE <<A(SubSeq(s, 1, size))>> \o (IF step >= Len(s) THEN <<>> ELSE Windows(SubSeq(s, step+1, Len(s)), size, step))
IsArrT(t) == t[1] = "array"
FloatT(t) == t[1] \in {"float", "double"}
MedianOf(D, t, xs) ==
  LET sa == Plain(SortCmp(D, t, Keyed(xs)))  h == Len(sa) \div 2 IN
  IF Len(sa) % 2 = 1 THEN sa[h+1]
  ELSE IF FloatT(t) THEN NDiv(NAdd(sa[h], sa[h+1]), I(2))
  ELSE sa[h]
ArrNames == {f \in KNOWN : Len(f) > 2 /\ SubSeq(f, 1, 2) = "a."}
NLess(D, t, x, n, desc) ==
  LET s == IF desc THEN SortDesc(D, t, Keyed(x)) ELSE SortCmp(D, t, Keyed(x)) IN SubSeq(s, 1, Min2(n, Len(s)))
\* element equality used by searching and set functions: equality of values
Eqable(D, t) == ~HasMap(D, t) \/ TRUE
ExtremeCodes == [f \in {"a.max", "a.min", "a.maxN", "a.minN", "a.argmax", "a.argmin", "a.argmaxN", "a.argminN"} |->
   CASE f = "a.max" -> 15240 [] f = "a.min" -> 15250 [] f = "a.maxN" -> 15280 [] f = "a.minN" -> 15290
     [] f = "a.argmax" -> 15320 [] f = "a.argmin" -> 15330 [] f = "a.argmaxN" -> 15360 [] OTHER -> 15370]
Arr(D, f, pts, rt, a) ==
  LET x == a[1][2]
      n == Len(x)
      it == IF pts[1][1] = "array" THEN pts[1][2] ELSE TNull
      ndArr == Len(a) >= 2 /\ a[2][1] = "a"
      nd == IF ndArr THEN a[2][2] ELSE <<>>
      \* the second signature (element) applies when the parameter is not an array of the same item type
      elem == Len(pts) >= 2 /\ ~(pts[2][1] = "array" /\ TEq(pts[2], pts[1]))
  IN
  CASE f = "a.len" -> VAL(I(n))
    [] f = "a.subseq" -> LET se == StartEnd(n, a[2][2], a[3][2]) IN VAL(A(Slice(x, se[1], se[2])))
    [] f = "a.head" -> IF n = 0 THEN RT(15020) ELSE VAL(x[1])
    [] f = "a.tail" -> IF n = 0 THEN RT(15030) ELSE VAL(A(Tail(x)))
    [] f = "a.last" -> IF n = 0 THEN RT(15040) ELSE VAL(Last(x))
    [] f = "a.init" -> IF n = 0 THEN RT(15050) ELSE VAL(A(Front(x)))
    [] f = "a.subseqto" -> LET se == StartEnd(n, a[2][2], a[3][2]) IN VAL(A(Slice(x, 0, se[1]) \o a[4][2] \o Slice(x, se[2], n)))
    [] f \in {"a.contains", "a.count", "a.index", "a.rindex", "a.startswith", "a.endswith"} ->
         IF elem /\ ndArr THEN SKIP
         ELSE LET oc == IF elem THEN {p \in 1..n : x[p] = a[2]} ELSE Occ(x, nd) IN
         (CASE f = "a.contains" -> VAL(B(oc # {}))
            [] f = "a.count" -> VAL(I(IF ~elem /\ nd = <<>> THEN 0 ELSE Cardinality(oc)))
            [] f = "a.index" -> VAL(I(IF oc = {} THEN -1 ELSE MinS(oc) - 1))
            [] f = "a.rindex" -> VAL(I(IF oc = {} THEN -1 ELSE MaxS(oc) - 1))
            [] f = "a.startswith" -> VAL(B(1 \in oc))
            [] OTHER -> VAL(B(IF elem THEN n \in oc ELSE (n - Len(nd) + 1) \in oc)))
    [] f = "a.concat" -> VAL(A(x \o a[2][2]))
    [] f = "a.append" -> VAL(A(Append(x, a[2])))
    [] f = "a.cycle" -> LET m == a[3][2]  o == Append(x, a[2]) IN
         IF m < 0 THEN RT(15150) ELSE VAL(A(SubSeq(o, Max2(1, Len(o) - m + 1), Len(o))))
    [] f \in {"a.insert", "a.replace"} ->
         LET i == NegIndex(n, a[2][2]) IN
         IF i < 0 \/ i >= n THEN RT(IF f = "a.insert" THEN 15160 ELSE 15170)
         ELSE VAL(A(Slice(x, 0, i) \o <<a[3]>> \o Slice(x, IF f = "a.insert" THEN i ELSE i+1, n)))
    [] f = "a.remove" ->
         IF Len(a) = 3 THEN LET se == StartEnd(n, a[2][2], a[3][2]) IN VAL(A(Slice(x, 0, se[1]) \o Slice(x, se[2], n)))
         ELSE LET i == NegIndex(n, a[2][2]) IN
              IF i < 0 \/ i >= n THEN RT(15180) ELSE VAL(A(Slice(x, 0, i) \o Slice(x, i+1, n)))
    [] f = "a.rotate" -> IF a[2][2] < 0 THEN RT(15190) ELSE IF n = 0 THEN VAL(a[1])
                         ELSE LET k == a[2][2] % n IN VAL(A(Slice(x, k, n) \o Slice(x, 0, k)))
    [] f = "a.sort" -> IF HasMap(D, it) \/ ~AllCmp(D, it, x) THEN SKIP ELSE VAL(A(Plain(SortCmp(D, it, Keyed(x)))))
    [] f = "a.reverse" -> VAL(A(Rev(x)))
    [] f \in DOMAIN ExtremeCodes ->
         IF n = 0 THEN RT(ExtremeCodes[f])
         ELSE IF Len(a) = 2 /\ a[2][2] < 0 THEN RT(ExtremeCodes[f] + 1)
         ELSE IF HasMap(D, it) \/ ~AllCmp(D, it, x) THEN SKIP
         ELSE LET s == NLess(D, it, x, IF Len(a) = 2 THEN a[2][2] ELSE 1, f \in {"a.max", "a.maxN", "a.argmax", "a.argmaxN"})
              IN VAL(CASE f \in {"a.max", "a.min"} -> s[1][1]
                       [] f \in {"a.maxN", "a.minN"} -> A(Plain(s))
                       [] f \in {"a.argmax", "a.argmin"} -> I(s[1][2])
                       [] OTHER -> A(TLCEval([i \in 1..Len(s) |-> I(s[i][2])])))
    [] f = "a.sum" -> IF rt[1] \in {"int", "long"} THEN IntResult(rt[1], BSumR(x), 15400) ELSE VALP(SumR(x, I(0)))
    [] f = "a.product" -> IF rt[1] \in {"int", "long"} THEN IntResult(rt[1], BProdR(x), 15410) ELSE VALP(ProdR(x, I(1)))
    [] f = "a.mean" -> IF n = 0 THEN VAL(NAN) ELSE VALP(NDiv(SumR(x, I(0)), I(n)))
    [] f = "a.median" -> IF n = 0 THEN RT(15450)
                         ELSE IF HasMap(D, it) \/ ~AllCmp(D, it, x) THEN SKIP ELSE VALP(MedianOf(D, it, x))
    [] f = "a.mode" ->
         IF n = 0 THEN RT(15470)
         ELSE IF HasMap(D, it) \/ ~AllCmp(D, it, x) THEN SKIP
         ELSE LET cnt(v) == Cardinality({i \in 1..n : x[i] = v})
                  best == MaxS({cnt(x[i]) : i \in 1..n})
              IN VALP(MedianOf(D, it, DistinctR(SelectSeq(x, LAMBDA v : cnt(v) = best), <<>>)))
    [] f = "a.ntile" ->
         IF n = 0 THEN RT(15460)
         ELSE IF IsNan(a[2]) THEN RT(15461)
         ELSE IF ~IsNum(a[2]) \/ HasMap(D, it) \/ ~AllCmp(D, it, x) THEN SKIP
         ELSE LET p == a[2]  sa == Plain(SortCmp(D, it, Keyed(x))) IN
              IF NCmp(p, I(0)) <= 0 THEN VAL(sa[1])
              ELSE IF NCmp(p, I(1)) >= 0 THEN VAL(sa[n])
              ELSE LET k == NMul(I(n-1), p) IN
                   IF k = POISON THEN SKIP
                   ELSE LET fl == NFloor(k) IN
                        IF FloatT(it) THEN (IF k[1] = "i" THEN VAL(sa[fl+1])
                             ELSE VALP(NAdd(NMul(sa[fl+1], NSub(I(fl+1), k)), NMul(sa[fl+2], NSub(k, I(fl))))))
                        ELSE VAL(sa[fl+1])
    [] f = "a.distinct" -> VAL(A(DistinctR(x, <<>>)))
    [] f = "a.seteq" -> VAL(B(Range(x) = Range(a[2][2])))
    [] f = "a.union" -> VAL(A(DistinctR(x \o a[2][2], <<>>)))
    [] f = "a.intersection" -> VAL(A(DistinctR(SelectSeq(x, LAMBDA v : v \in Range(a[2][2])), <<>>)))
    [] f = "a.diff" -> VAL(A(SelectSeq(x, LAMBDA v : v \notin Range(a[2][2]))))
    [] f = "a.symdiff" -> VAL(A(SelectSeq(x, LAMBDA v : v \notin Range(a[2][2])) \o SelectSeq(a[2][2], LAMBDA v : v \notin Range(x))))
    [] f = "a.subset" -> VAL(B(Range(x) \subseteq Range(a[2][2])))
    [] f = "a.disjoint" -> VAL(B(Range(x) \cap Range(a[2][2]) = {}))
    [] f = "a.slidingWindow" -> IF a[2][2] < 1 THEN RT(15770) ELSE IF a[3][2] < 1 THEN RT(15771)
                                ELSE VAL(A(Windows(x, a[2][2], a[3][2])))
    [] f = "a.combinations" -> IF a[2][2] < 1 THEN RT(15780)
                               ELSE LET c == Combos(x, a[2][2]) IN VAL(A(TLCEval([i \in 1..Len(c) |-> A(c[i])])))
    [] f = "a.permutations" -> IF n > 5 THEN SKIP ELSE LET c == PermsR(x) IN VAL(A(TLCEval([i \in 1..Len(c) |-> A(c[i])])))
    [] f = "a.flatten" -> VAL(A(FlattenSeq2(TLCEval([i \in 1..n |-> x[i][2]]))))
    [] OTHER -> SKIP

(***************************************************************************)
(* Maps (a specification value has no key order; functions whose result    *)
(* exposes the order answer in sorted order and callers compare as bags)   *)
(***************************************************************************)
Over(f, g) == TLCEval([k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]])
RECURSIVE JoinMaps(_, _)
JoinMaps(s, acc) == IF s = <<>> THEN acc ELSE JoinMaps(Tail(s), Over(acc, Head(s)[2]))
MapExtreme(D, t, m, n, desc) ==   \* keys of the n extreme values; ties by key order
  LET ks == SortedKeys(m)
      its == TLCEval([i \in 1..Len(ks) |-> <<m[ks[i]], ks[i]>>])
      s == IF desc THEN SortDesc(D, t, its) ELSE SortCmp(D, t, its)
  IN SubSeq(s, 1, Min2(n, Len(s)))
MapArgCodes == [f \in {"map.argmax", "map.argmin", "map.argmaxN", "map.argminN"} |->
   CASE f = "map.argmax" -> 26120 [] f = "map.argmin" -> 26130 [] f = "map.argmaxN" -> 26160 [] OTHER -> 26170]
\* the key of an item in a set-as-map: base64 of its binary encoding (integers, strings, booleans)
RECURSIVE VarInt(_)
VarInt(b) == LET lo == LimbNat(GMod(b, BigOf(128))[2])  hi == GQuot(b, BigOf(128)) IN
             IF hi[1] = 0 THEN <<lo>> ELSE <<lo + 128>> \o VarInt(hi)
ZigZag(b) == IF b[1] >= 0 THEN GMul(b, BigOf(2)) ELSE GSub(GMul(GNeg(b), BigOf(2)), BigOf(1))
AvroLong(b) == VarInt(ZigZag(b))
B64CHARS == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
B64C(n) == CharAt(B64CHARS, n+1)
RECURSIVE Base64(_)
Base64(s) ==
  IF s = <<>> THEN ""
  ELSE IF Len(s) = 1 THEN B64C(s[1] \div 4) \o B64C((s[1] % 4) * 16) \o "=="
  ELSE IF Len(s) = 2 THEN B64C(s[1] \div 4) \o B64C((s[1] % 4) * 16 + s[2] \div 16) \o B64C((s[2] % 16) * 4) \o "="
  ELSE B64C(s[1] \div 4) \o B64C((s[1] % 4) * 16 + s[2] \div 16) \o B64C((s[2] % 16) * 4 + s[3] \div 64) \o B64C(s[3] % 64)
       \o Base64(SubSeq(s, 4, Len(s)))
RECURSIVE AvroBin(_, _, _)
AvroBin(D, t, v) ==   \* <<TRUE, bytes>> or <<FALSE>>
  CASE t[1] = "null" -> <<TRUE, <<>>>>
    [] t[1] = "boolean" -> <<TRUE, <<IF v = TRUEV THEN 1 ELSE 0>>>>
    [] t[1] \in {"int", "long"} -> <<TRUE, AvroLong(ToBig(v))>>
    [] t[1] = "string" -> <<TRUE, AvroLong(BigOf(Len(v[2]))) \o Codes(v[2])>>
    [] t[1] = "bytes" -> <<TRUE, AvroLong(BigOf(Len(v[2]))) \o v[2]>>
    [] t[1] = "fixed" -> <<TRUE, v[2]>>
    [] t[1] = "enum" -> <<TRUE, AvroLong(BigOf(SeqIndex(D[t[2]].syms, v[2]) - 1))>>
    [] t[1] = "array" ->
         LET bs == TLCEval([i \in 1..Len(v[2]) |-> AvroBin(D, t[2], v[2][i])]) IN
         IF \E i \in 1..Len(bs) : ~bs[i][1] THEN <<FALSE>>
         ELSE <<TRUE, (IF bs = <<>> THEN <<>> ELSE AvroLong(BigOf(Len(bs)))) \o FlattenSeq2(TLCEval([i \in 1..Len(bs) |-> bs[i][2]])) \o <<0>>>>
    [] t[1] = "rec" ->
         LET fl == D[t[2]].fields
             bs == TLCEval([i \in 1..Len(fl) |-> AvroBin(D, fl[i][2], v[2][fl[i][1]])]) IN
         IF \E i \in 1..Len(bs) : ~bs[i][1] THEN <<FALSE>> ELSE <<TRUE, FlattenSeq2(TLCEval([i \in 1..Len(bs) |-> bs[i][2]]))>>
    [] OTHER -> <<FALSE>>
SetKey(D, t, v) == LET b == AvroBin(D, t, v) IN IF b[1] THEN <<TRUE, Base64(b[2])>> ELSE <<FALSE>>

MapFn(D, f, pts, rt, a) ==
  LET m == a[1][2]
      g == IF Len(a) >= 2 /\ a[2][1] = "m" THEN a[2][2] ELSE EmptyFn
      vt == IF pts[1][1] = "map" THEN pts[1][2] ELSE TNull
  IN
  CASE f = "map.len" -> VAL(I(Cardinality(DOMAIN m)))
    [] f = "map.keys" -> VAL(A(TLCEval([i \in 1..Cardinality(DOMAIN m) |-> S(SortedKeys(m)[i])])))
    [] f \in {"map.values", "map.fromset"} -> LET ks == SortedKeys(m) IN VAL(A(TLCEval([i \in 1..Len(ks) |-> m[ks[i]]])))
    [] f = "map.containsKey" -> VAL(B(a[2][2] \in DOMAIN m))
    [] f = "map.containsValue" -> VAL(B(a[2] \in Range(m)))
    [] f = "map.add" -> IF Len(a) = 3 THEN VAL(M(Put(m, a[2][2], a[3])))
                        ELSE LET k == SetKey(D, pts[2], a[2]) IN IF k[1] THEN VAL(M(Put(m, k[2], a[2]))) ELSE SKIP
    [] f = "map.toset" ->
         LET its == a[1][2]
             ks == TLCEval([i \in 1..Len(its) |-> SetKey(D, pts[1][2], its[i])]) IN
         IF \E i \in 1..Len(ks) : ~ks[i][1] THEN SKIP
         ELSE VAL(M(TLCEval([k \in {ks[i][2] : i \in 1..Len(ks)} |-> its[CHOOSE i \in 1..Len(ks) : ks[i][2] = k]])))
    [] f = "map.in" -> LET k == SetKey(D, pts[1][2], a[2]) IN IF k[1] THEN VAL(B(k[2] \in DOMAIN m)) ELSE SKIP
    [] f = "map.remove" -> VAL(M(Drop(m, a[2][2])))
    [] f = "map.only" -> VAL(M(Restr(m, {k \in DOMAIN m : S(k) \in Range(a[2][2])})))
    [] f = "map.except" -> VAL(M(Restr(m, {k \in DOMAIN m : S(k) \notin Range(a[2][2])})))
    [] f \in {"map.update", "map.union"} -> VAL(M(Over(m, g)))
    [] f = "map.split" -> LET ks == SortedKeys(m) IN VAL(A(TLCEval([i \in 1..Len(ks) |-> M(ks[i] :> m[ks[i]])])))
    [] f = "map.join" -> VAL(M(JoinMaps(a[1][2], EmptyFn)))
    [] f \in DOMAIN MapArgCodes ->
         IF DOMAIN m = {} THEN RT(MapArgCodes[f])
         ELSE IF Len(a) = 2 /\ a[2][2] < 0 THEN RT(MapArgCodes[f] + 1)
         ELSE IF HasMap(D, vt) \/ ~AllCmp(D, vt, LET ks == SortedKeys(m) IN TLCEval([i \in 1..Len(ks) |-> m[ks[i]]])) THEN SKIP
         ELSE LET s == MapExtreme(D, vt, m, IF Len(a) = 2 THEN a[2][2] ELSE 1, f \in {"map.argmax", "map.argmaxN"}) IN
              VAL(IF Len(a) = 2 THEN A(TLCEval([i \in 1..Len(s) |-> S(s[i][2])])) ELSE S(s[1][2]))
    [] f = "map.intersection" -> VAL(M(Restr(m, DOMAIN m \cap DOMAIN g)))
    [] f = "map.diff" -> VAL(M(Restr(m, DOMAIN m \ DOMAIN g)))
    [] f = "map.symdiff" -> VAL(M(Over(Restr(m, DOMAIN m \ DOMAIN g), Restr(g, DOMAIN g \ DOMAIN m))))
    [] f = "map.subset" -> VAL(B(DOMAIN m \subseteq DOMAIN g))
    [] f = "map.disjoint" -> VAL(B(DOMAIN m \cap DOMAIN g = {}))
    [] OTHER -> SKIP

(***************************************************************************)
(* Strings and bytes                                                       *)
(***************************************************************************)
LOWER == "abcdefghijklmnopqrstuvwxyz"
UPPER == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
ToChars(s) == TLCEval([i \in 1..Len(s) |-> CharAt(s, i)])
RECURSIVE FromChars(_)
FromChars(q) == IF q = <<>> THEN "" ELSE Head(q) \o FromChars(Tail(q))
SetOfChars(s) == {CharAt(s, i) : i \in 1..Len(s)}
LOWMAP == [c \in SetOfChars(UPPER) |-> CharAt(LOWER, CHOOSE i \in 1..26 : CharAt(UPPER, i) = c)]
UPMAP == [c \in SetOfChars(LOWER) |-> CharAt(UPPER, CHOOSE i \in 1..26 : CharAt(LOWER, i) = c)]
SSlice(s, from, to) == IF to <= from THEN "" ELSE SubSeq(s, from+1, to)
\* 1-based positions where nd (non-empty or not) occurs in h
SOcc(h, nd) == {p \in 1..(Len(h) - Len(nd) + 1) : SubSeq(h, p, p + Len(nd) - 1) = nd}
\* leftmost non-overlapping occurrences from position p
RECURSIVE NonOverlap(_, _, _)
NonOverlap(h, nd, p) ==
  LET o == {q \in SOcc(h, nd) : q >= p} IN
  IF o = {} THEN <<>> ELSE <<MinS(o)>> \o NonOverlap(h, nd, MinS(o) + Len(nd))
RECURSIVE SplitAt(_, _, _, _)
SplitAt(h, n, ps, from) ==   \* pieces between occurrences (1-based start)
  IF ps = <<>> THEN <<SubSeq(h, from, Len(h))>>
  ELSE <<SSlice(h, from-1, Head(ps)-1)>> \o SplitAt(h, n, Tail(ps), Head(ps) + n)
SplitStr(h, nd) == SplitAt(h, Len(nd), NonOverlap(h, nd, 1), 1)
RECURSIVE JoinStr(_, _)
JoinStr(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o JoinStr(Tail(q), sep)
RECURSIVE RevStr(_), LStripS(_, _), RStripS(_, _), RepeatS(_, _), SpacesN(_, _)
RevStr(s) == IF s = "" THEN "" ELSE RevStr(SubSeq(s, 2, Len(s))) \o SubSeq(s, 1, 1)
LStripS(s, cs) == IF s # "" /\ CharAt(s, 1) \in cs THEN LStripS(SubSeq(s, 2, Len(s)), cs) ELSE s
RStripS(s, cs) == IF s # "" /\ CharAt(s, Len(s)) \in cs THEN RStripS(SubSeq(s, 1, Len(s)-1), cs) ELSE s
RepeatS(s, n) == IF n <= 0 THEN "" ELSE s \o RepeatS(s, n-1)
SpacesN(c, n) == RepeatS(c, n)
ReplFirst(s, o, r) == LET q == SOcc(s, o) IN IF q = {} THEN s ELSE LET p == MinS(q) IN SubSeq(s, 1, p-1) \o r \o SubSeq(s, p+Len(o), Len(s))
HexDigit(n) == CharAt("0123456789abcdef", n+1)
RECURSIVE HexOf(_)
HexOf(b) == LET lo == LimbNat(GMod(b, BigOf(16))[2])  hi == GQuot(b, BigOf(16)) IN
            (IF hi[1] = 0 THEN "" ELSE HexOf(hi)) \o HexDigit(lo)
PadL(s, w, c) == SpacesN(c, w - Len(s)) \o s
PadR(s, w) == s \o SpacesN(" ", w - Len(s))
\* printed integer in a field of the given width (negative: left justified; zero width: nothing)
Field(txt, neg, w, zero, code) ==
  IF zero /\ w < 0 THEN RT(code)
  ELSE IF w = 0 THEN VAL(S(""))
  ELSE IF w < 0 THEN VAL(S(PadR((IF neg THEN "-" ELSE "") \o txt, -w)))
  ELSE IF zero THEN VAL(S((IF neg THEN "-" ELSE "") \o PadL(txt, w - (IF neg THEN 1 ELSE 0), "0")))
  ELSE VAL(S(PadL((IF neg THEN "-" ELSE "") \o txt, w, " ")))
Printable(s) == \A i \in 1..Len(s) : s[i] >= 32 /\ s[i] < 127
CHR == [n \in 32..126 |-> CharAt(ASCII, n-31)]
StrOfCodes(s) == FromChars(TLCEval([i \in 1..Len(s) |-> CHR[s[i]]]))
\* a string value from code points: printable ASCII as a TLA+ string, anything else as its code points
MkStr(cs) == IF Printable(cs) THEN S(StrOfCodes(cs)) ELSE <<"u", cs>>
CodesV(v) == IF v[1] = "u" THEN v[2] ELSE Codes(v[2])
StrFn(D, f, pts, rt, a) ==
  LET s == IF a[1][1] = "s" THEN a[1][2] ELSE ""
      t == IF Len(a) >= 2 /\ a[2][1] = "s" THEN a[2][2] ELSE ""
      u == IF Len(a) >= 3 /\ a[3][1] = "s" THEN a[3][2] ELSE ""
      n == Len(s)
  IN
  CASE \E i \in 1..Len(a) : a[i][1] = "u" -> IF f = "s.len" THEN VAL(I(Len(a[1][2]))) ELSE IF f = "s.concat" THEN VAL(MkStr(CodesV(a[1]) \o CodesV(a[2]))) ELSE SKIP
    [] f = "s.len" -> VAL(I(n))
    [] f = "s.substr" -> LET se == StartEnd(n, a[2][2], a[3][2]) IN VAL(S(SSlice(s, se[1], se[2])))
    [] f = "s.substrto" -> LET se == StartEnd(n, a[2][2], a[3][2]) IN VAL(S(SSlice(s, 0, se[1]) \o a[4][2] \o SSlice(s, se[2], n)))
    [] f = "s.contains" -> VAL(B(SOcc(s, t) # {}))
    [] f = "s.count" -> VAL(I(IF n = 0 \/ t = "" THEN 0 ELSE Len(NonOverlap(s, t, 1))))
    [] f = "s.index" -> VAL(I(IF SOcc(s, t) = {} THEN -1 ELSE MinS(SOcc(s, t)) - 1))
    [] f = "s.rindex" -> VAL(I(IF SOcc(s, t) = {} THEN -1 ELSE MaxS(SOcc(s, t)) - 1))
    [] f = "s.startswith" -> VAL(B(1 \in SOcc(s, t)))
    [] f = "s.endswith" -> VAL(B((n - Len(t) + 1) \in SOcc(s, t)))
    [] f = "s.join" -> VAL(S(JoinStr(TLCEval([i \in 1..Len(a[1][2]) |-> a[1][2][i][2]]), t)))
    [] f = "s.split" -> IF t = "" THEN VAL(A(<<>>)) ELSE LET q == SplitStr(s, t) IN VAL(A(TLCEval([i \in 1..Len(q) |-> S(q[i])])))
    [] f = "s.concat" -> VAL(S(s \o t))
    [] f = "s.repeat" -> IF a[2][2] > 40 THEN SKIP ELSE VAL(S(RepeatS(s, a[2][2])))
    [] f = "s.lower" -> VAL(S(FromChars(TLCEval([i \in 1..n |-> LET c == CharAt(s, i) IN IF c \in DOMAIN LOWMAP THEN LOWMAP[c] ELSE c]))))
    [] f = "s.upper" -> VAL(S(FromChars(TLCEval([i \in 1..n |-> LET c == CharAt(s, i) IN IF c \in DOMAIN UPMAP THEN UPMAP[c] ELSE c]))))
    [] f = "s.lstrip" -> VAL(S(LStripS(s, SetOfChars(t))))
    [] f = "s.rstrip" -> VAL(S(RStripS(s, SetOfChars(t))))
    [] f = "s.strip" -> VAL(S(LStripS(RStripS(s, SetOfChars(t)), SetOfChars(t))))
    [] f = "s.replaceall" -> IF t = "" THEN SKIP ELSE VAL(S(JoinStr(SplitStr(s, t), u)))
    [] f = "s.replacefirst" -> IF t = "" THEN SKIP ELSE VAL(S(ReplFirst(s, t, u)))
    [] f = "s.replacelast" -> IF t = "" THEN SKIP ELSE VAL(S(RevStr(ReplFirst(RevStr(s), RevStr(t), RevStr(u)))))
    [] f = "s.translate" ->
         LET tr(c) == LET i == IF c \in SetOfChars(t) THEN CHOOSE i \in 1..Len(t) : CharAt(t, i) = c /\ \A j \in 1..(i-1) : CharAt(t, j) # c ELSE 0
                      IN IF i = 0 THEN c ELSE IF i <= Len(u) THEN CharAt(u, i) ELSE ""
         IN VAL(S(FromChars(TLCEval([i \in 1..n |-> tr(CharAt(s, i))]))))
    [] f = "s.hex" ->
         LET b == ToBig(a[1]) IN
         IF b[1] < 0 THEN RT(39111)
         ELSE IF Len(a) = 1 THEN VAL(S(HexOf(b)))
         ELSE IF Abs(a[2][2]) > 64 THEN SKIP
         ELSE Field(HexOf(b), FALSE, a[2][2], a[3] = TRUEV, 39110)
    [] f = "s.int" \/ (f = "s.number" /\ pts[1][1] = "long") ->
         LET b == ToBig(a[1])  txt == BigStr(GAbs(b)) IN
         IF Len(a) = 1 THEN VAL(S(BigStr(b)))
         ELSE IF Abs(a[2][2]) > 64 THEN SKIP
         ELSE Field(txt, b[1] < 0, a[2][2], a[3] = TRUEV, IF f = "s.int" THEN 39240 ELSE 39120)
    [] OTHER -> SKIP

\* bytes: sequences of 0..255; UTF encodings of code points
RECURSIVE Utf8Ok(_)
Cont(s, k) == \A i \in 2..k : Len(s) >= k /\ s[i] >= 128 /\ s[i] < 192
Utf8Ok(s) ==
  IF s = <<>> THEN TRUE
  ELSE LET h == s[1] IN
       IF h < 128 THEN Utf8Ok(Tail(s))
       ELSE IF h >= 194 /\ h < 224 THEN Len(s) >= 2 /\ Cont(s, 2) /\ Utf8Ok(SubSeq(s, 3, Len(s)))
       ELSE IF h >= 224 /\ h < 240 THEN Len(s) >= 3 /\ Cont(s, 3) /\ (h # 224 \/ s[2] >= 160) /\ (h # 237 \/ s[2] < 160) /\ Utf8Ok(SubSeq(s, 4, Len(s)))
       ELSE IF h >= 240 /\ h < 245 THEN Len(s) >= 4 /\ Cont(s, 4) /\ (h # 240 \/ s[2] >= 144) /\ (h # 244 \/ s[2] < 144) /\ Utf8Ok(SubSeq(s, 5, Len(s)))
       ELSE FALSE
Utf16Ok(s, be) ==   \* pairs of bytes; surrogates must pair
  /\ Len(s) % 2 = 0
  /\ LET hi(i) == IF be THEN s[2*i-1] ELSE s[2*i]
         n == Len(s) \div 2
         HS(i) == hi(i) >= 216 /\ hi(i) < 220
         LS(i) == hi(i) >= 220 /\ hi(i) < 224
     IN \A i \in 1..n : (HS(i) => i < n /\ LS(i+1)) /\ (LS(i) => i > 1 /\ HS(i-1))
Ascii7(s) == \A i \in 1..Len(s) : s[i] < 128
Unit16(u, be) == IF be THEN <<u \div 256, u % 256>> ELSE <<u % 256, u \div 256>>
Utf16Enc(cs, be) == FlattenSeq2(TLCEval([i \in 1..Len(cs) |->
  IF cs[i] < 65536 THEN Unit16(cs[i], be) ELSE Unit16(55296 + (cs[i] - 65536) \div 1024, be) \o Unit16(56320 + ((cs[i] - 65536) % 1024), be)]))
RECURSIVE FromUtf8(_)
FromUtf8(y) ==   \* y: valid UTF-8
  IF y = <<>> THEN <<>>
  ELSE LET h == y[1]
           k == IF h < 128 THEN 1 ELSE IF h < 224 THEN 2 ELSE IF h < 240 THEN 3 ELSE 4
           c(i) == y[i] - 128
       IN <<IF k = 1 THEN h ELSE IF k = 2 THEN (h - 192)*64 + c(2) ELSE IF k = 3 THEN (h - 224)*4096 + c(2)*64 + c(3) ELSE (h - 240)*262144 + c(2)*4096 + c(3)*64 + c(4)>>
          \o FromUtf8(SubSeq(y, k+1, Len(y)))
Utf8Of(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
ToUtf8(cs) == FlattenSeq2(TLCEval([i \in 1..Len(cs) |-> Utf8Of(cs[i])]))
RECURSIVE FromUtf16(_)
FromUtf16(us) ==   \* us: valid UTF-16 code units
  IF us = <<>> THEN <<>>
  ELSE IF us[1] >= 55296 /\ us[1] < 56320 THEN <<65536 + (us[1] - 55296)*1024 + (us[2] - 56320)>> \o FromUtf16(SubSeq(us, 3, Len(us)))
  ELSE <<us[1]>> \o FromUtf16(Tail(us))
Units(y, be) == TLCEval([i \in 1..(Len(y) \div 2) |-> IF be THEN y[2*i-1]*256 + y[2*i] ELSE y[2*i]*256 + y[2*i-1]])
B64VAL == [c \in SetOfChars(B64CHARS) |-> (CHOOSE i \in 1..64 : CharAt(B64CHARS, i) = c) - 1]
RECURSIVE FromB64(_)
FromB64(s) ==   \* s: a valid, padded base64 string
  IF s = "" THEN <<>>
  ELSE LET v(i) == IF CharAt(s, i) = "=" THEN 0 ELSE B64VAL[CharAt(s, i)]
           b1 == v(1)*4 + v(2) \div 16
           b2 == (v(2) % 16)*16 + v(3) \div 4
           b3 == (v(3) % 4)*64 + v(4)
       IN (IF CharAt(s, 3) = "=" THEN <<b1>> ELSE IF CharAt(s, 4) = "=" THEN <<b1, b2>> ELSE <<b1, b2, b3>>) \o FromB64(SubSeq(s, 5, Len(s)))
B64Valid(s) ==
  /\ Len(s) % 4 = 0
  /\ \A i \in 1..Len(s) : CharAt(s, i) \in DOMAIN B64VAL \/ (CharAt(s, i) = "=" /\ i >= Len(s) - 1)
  /\ (Len(s) >= 2 /\ CharAt(s, Len(s)-1) = "=") => CharAt(s, Len(s)) = "="
\* more padding than needed: read leniently or not
RECURSIVE Unpad(_)
Unpad(s) == IF s # "" /\ CharAt(s, Len(s)) = "=" THEN Unpad(SubSeq(s, 1, Len(s)-1)) ELSE s
B64Over(s) == LET c == Unpad(s) IN /\ \A i \in 1..Len(c) : CharAt(c, i) \in DOMAIN B64VAL
                                   /\ Len(s) > ((Len(c) + 3) \div 4) * 4 /\ Len(c) % 4 # 1
BytesFn(D, f, pts, rt, a) ==
  LET isStr == a[1][1] \in {"s", "u"}
      y == IF isStr THEN CodesV(a[1]) ELSE a[1][2]
      y16(be) == IF isStr THEN TRUE ELSE Utf16Ok(y, be)
      \* BOM decides; without one little endian is the platform default
      bom == Len(y) >= 2 /\ ((y[1] = 254 /\ y[2] = 255) \/ (y[1] = 255 /\ y[2] = 254))
  IN
  CASE f = "bytes.len" -> VAL(I(Len(y)))
    [] f = "bytes.subseq" -> LET se == StartEnd(Len(y), a[2][2], a[3][2]) IN VAL(<<"y", Slice(y, se[1], se[2])>>)
    [] f = "bytes.subseqto" -> LET se == StartEnd(Len(y), a[2][2], a[3][2]) IN VAL(<<"y", Slice(y, 0, se[1]) \o a[4][2] \o Slice(y, se[2], Len(y))>>)
    [] f = "bytes.isAscii" -> VAL(B(Ascii7(y)))
    [] f = "bytes.isLatin1" -> VAL(B(\A i \in 1..Len(y) : y[i] < 256))
    [] f = "bytes.isUtf8" -> VAL(B(isStr \/ Utf8Ok(y)))
    [] f = "bytes.isUtf16be" -> VAL(B(y16(TRUE)))
    [] f = "bytes.isUtf16le" -> VAL(B(y16(FALSE)))
    [] f = "bytes.isUtf16" -> IF isStr THEN VAL(TRUEV) ELSE IF bom THEN VAL(B(Utf16Ok(SubSeq(y, 3, Len(y)), y[1] = 254))) ELSE VAL(B(Utf16Ok(y, FALSE)))
    [] f = "bytes.decodeAscii" -> IF ~Ascii7(y) THEN RT(16090) ELSE VAL(MkStr(y))
    [] f = "bytes.decodeLatin1" -> VAL(MkStr(y))
    [] f = "bytes.decodeUtf8" -> IF ~Utf8Ok(y) THEN RT(16110) ELSE VAL(MkStr(FromUtf8(y)))
    [] f \in {"bytes.decodeUtf16be", "bytes.decodeUtf16le"} ->
         LET be == f = "bytes.decodeUtf16be" IN
         IF ~Utf16Ok(y, be) THEN RT(IF be THEN 16130 ELSE 16140)
         ELSE VAL(MkStr(FromUtf16(Units(y, be))))
    [] f = "bytes.decodeUtf16" ->
         LET be == bom /\ y[1] = 254   z == IF bom THEN SubSeq(y, 3, Len(y)) ELSE y IN
         IF ~Utf16Ok(z, be) THEN RT(16120)
         ELSE VAL(MkStr(FromUtf16(Units(z, be))))
    [] f = "bytes.encodeAscii" -> IF Ascii7(y) THEN VAL(<<"y", y>>) ELSE RT(16150)
    [] f = "bytes.encodeLatin1" -> IF \A i \in 1..Len(y) : y[i] < 256 THEN VAL(<<"y", y>>) ELSE RT(16160)
    [] f = "bytes.encodeUtf8" -> VAL(<<"y", ToUtf8(y)>>)
    [] f = "bytes.encodeUtf16be" -> VAL(<<"y", Utf16Enc(y, TRUE)>>)
    [] f = "bytes.encodeUtf16le" -> VAL(<<"y", Utf16Enc(y, FALSE)>>)
    [] f = "bytes.encodeUtf16" -> VAL(<<"y", <<255, 254>> \o Utf16Enc(y, FALSE)>>)
    [] f = "bytes.toBase64" -> VAL(S(Base64(y)))
    [] f = "bytes.fromBase64" -> IF a[1][1] = "u" THEN SKIP ELSE IF B64Over(a[1][2]) THEN SKIP ELSE IF B64Valid(a[1][2]) THEN VAL(<<"y", FromB64(a[1][2])>>) ELSE RT(16220)
    [] OTHER -> SKIP

(***************************************************************************)
(* Casts, enum, fixed, parse, math                                         *)
(***************************************************************************)
Pow2(n) == GPow(BigOf(2), n)
\* round half up
RoundHalfUp(v) == IF IsInteger(v) THEN ToBig(v) ELSE BigOf(NFloor(NAdd(v, <<"q", 1, 2>>)))
Roundable(v) == IsInteger(v) \/ (v[1] = "q" /\ NAdd(v, <<"q", 1, 2>>) # POISON)
FanTo(rt, b) == CASE rt[2][1] = "boolean" -> B(b) [] OTHER -> I(IF b THEN 1 ELSE 0)
FanCodes == [f \in {"cast.fanoutBoolean", "cast.fanoutInt", "cast.fanoutLong", "cast.fanoutFloat", "cast.fanoutDouble"} |->
   CASE f = "cast.fanoutBoolean" -> 17060 [] f = "cast.fanoutInt" -> 17070 [] f = "cast.fanoutLong" -> 17080
     [] f = "cast.fanoutFloat" -> 17090 [] OTHER -> 17100]
DigitIn(c, base) == LET p == IF c \in DOMAIN LOWMAP THEN LOWMAP[c] ELSE c
                        q == {i \in 1..36 : CharAt("0123456789abcdefghijklmnopqrstuvwxyz", i) = p} IN
                    IF q = {} THEN -1 ELSE LET d == (CHOOSE i \in q : TRUE) - 1 IN IF d < base THEN d ELSE -1
RECURSIVE ParseDigits(_, _, _)
ParseDigits(s, base, acc) ==
  IF s = "" THEN acc ELSE ParseDigits(SubSeq(s, 2, Len(s)), base, GAdd(GMul(acc, BigOf(base)), BigOf(DigitIn(CharAt(s, 1), base))))
\* sign and digits only; anything else that could be read as a number some other way is left open
ParseWhole(str, base) ==
  LET neg == str # "" /\ CharAt(str, 1) = "-"
      body == IF str # "" /\ CharAt(str, 1) \in {"-", "+"} THEN SubSeq(str, 2, Len(str)) ELSE str
  IN IF body # "" /\ \A i \in 1..Len(body) : DigitIn(CharAt(body, i), base) >= 0
     THEN <<"ok", IF neg THEN GNeg(ParseDigits(body, base, BigOf(0))) ELSE ParseDigits(body, base, BigOf(0))>>
     ELSE IF \E i \in 1..Len(str) : CharAt(str, i) \in {"_", " ", "x", "X", "o", "O", "b", "B"} THEN <<"open">>
     ELSE <<"bad">>
\* characters that might occur in some notation of a number
PLAUSIBLE == {CharAt("0123456789+-._ eEinfatyINFATYdDxXpP", i) : i \in 1..Len("0123456789+-._ eEinfatyINFATYdDxXpP")}
\* decimal numbers: [sign] digits [. digits] with a dyadic value
ParseDec(str) ==
  LET neg == str # "" /\ CharAt(str, 1) = "-"
      body == IF str # "" /\ CharAt(str, 1) \in {"-", "+"} THEN SubSeq(str, 2, Len(str)) ELSE str
      dots == {i \in 1..Len(body) : CharAt(body, i) = "."}
      digs == {i \in 1..Len(body) : CharAt(body, i) \in DOMAIN DigitVal}
  IN IF body = "" \/ (\A i \in 1..Len(str) : CharAt(str, i) \in {"q", "z", "k", "-", "*", "$"}) THEN <<"bad">>
     ELSE IF dots \cup digs = 1..Len(body) /\ digs # {} /\ Len(body) <= 8 THEN
        (IF Cardinality(dots) > 1 THEN <<"bad">>
         ELSE LET p == IF dots = {} THEN Len(body) + 1 ELSE MinS(dots)
                  ip == SubSeq(body, 1, p-1)
                  fp == IF dots = {} THEN "" ELSE SubSeq(body, p+1, Len(body))
                  n == NatOfDigits(ip \o fp, 0)
                  v == NDiv(I(n), I(LimbNat(GPow(BigOf(10), Len(fp))[2]))) IN
              IF v = POISON THEN <<"open">> ELSE <<"ok", IF neg THEN NNeg(v) ELSE v>>)
     ELSE IF \E i \in 1..Len(str) : CharAt(str, i) \notin PLAUSIBLE THEN <<"bad">>
     ELSE <<"open">>
IsSquare(n) == \E k \in 0..Min2(n, 46340) : k*k = n
Isqrt(n) == CHOOSE k \in 0..Min2(n, 46340) : k*k = n
MiscFn(D, f, pts, rt, a) ==
  LET x == IF Len(a) > 0 THEN a[1] ELSE NULL IN
  CASE f = "cast.int" -> IF IsNan(x) \/ x \in {<<"F", "inf">>, <<"F", "-inf">>} THEN RT(17020)
                         ELSE IF ~Roundable(x) THEN SKIP
                         ELSE LET b == RoundHalfUp(x) IN IF InInt(b) THEN VAL(FromBig(b)) ELSE RT(17020)
    [] f = "cast.long" -> IF IsNan(x) \/ x \in {<<"F", "inf">>, <<"F", "-inf">>} THEN RT(17030)
                          ELSE IF ~Roundable(x) THEN SKIP
                          ELSE LET b == RoundHalfUp(x) IN IF InLong(b) THEN VAL(FromBig(b)) ELSE RT(17030)
    [] f \in {"cast.double", "cast.float"} -> IF x[1] \in {"i", "q", "F"} THEN VAL(x)
                                            ELSE IF GCmp(GAbs(ToBig(x)), Pow2(53)) <= 0 THEN VAL(x) ELSE SKIP
    [] f = "cast.signed" ->
         LET bits == a[2][2] IN
         IF bits < 2 \/ bits > 64 THEN RT(17000)
         ELSE LET y == GMod(ToBig(x), Pow2(bits)) IN
              VAL(FromBig(IF GCmp(y, Pow2(bits-1)) >= 0 THEN GSub(y, Pow2(bits)) ELSE y))
    [] f = "cast.unsigned" ->
         LET bits == a[2][2] IN
         IF bits < 1 \/ bits > 63 THEN RT(17010) ELSE VAL(FromBig(GMod(ToBig(x), Pow2(bits))))
    [] f \in DOMAIN FanCodes ->
         IF Len(a) = 1 THEN LET sy == D[pts[1][2]].syms IN VAL(A(TLCEval([i \in 1..Len(sy) |-> FanTo(rt, S(sy[i]) = x)])))
         ELSE IF Len(a) = 3 THEN
              LET d == a[2][2]
                  base == TLCEval([i \in 1..Len(d) |-> FanTo(rt, d[i] = x)]) IN
              IF Cardinality(Range(d)) # Len(d) THEN RT(FanCodes[f])
              ELSE VAL(A(IF a[3] = TRUEV THEN Append(base, FanTo(rt, x \notin Range(d))) ELSE base))
         ELSE LET lo == a[2][2]  hi == a[3][2]
                  n == Max2(0, hi - lo)
                  base == TLCEval([i \in 1..n |-> FanTo(rt, x[2] = lo + i - 1)]) IN
              IF n > 50 THEN SKIP ELSE VAL(A(IF a[4] = TRUEV THEN Append(base, FanTo(rt, x[2] < lo \/ x[2] >= hi)) ELSE base))
    [] f = "enum.toString" -> VAL(x)
    [] f = "enum.toInt" -> VAL(I(SeqIndex(D[pts[1][2]].syms, x[2]) - 1))
    [] f = "enum.numSymbols" -> VAL(I(Len(D[pts[1][2]].syms)))
    [] f = "fixed.toBytes" -> VAL(x)
    [] f = "fixed.fromBytes" -> LET o == x[2]  r == a[2][2] n == Min2(Len(o), Len(r)) IN VAL(<<"y", SubSeq(r, 1, n) \o SubSeq(o, n+1, Len(o))>>)
    [] f \in {"parse.int", "parse.long"} ->
         LET base == a[2][2]  c == IF f = "parse.int" THEN 33000 ELSE 33010 IN
         IF base < 2 \/ base > 36 THEN RT(c+1)
         ELSE LET r == ParseWhole(x[2], base) IN
              IF r[1] = "open" THEN SKIP
              ELSE IF r[1] = "bad" THEN RT(c)
              ELSE IF (f = "parse.int" /\ InInt(r[2])) \/ (f = "parse.long" /\ InLong(r[2])) THEN VAL(FromBig(r[2])) ELSE RT(c)
    [] f \in {"parse.float", "parse.double"} ->
         LET r == ParseDec(x[2]) IN
         IF r[1] = "ok" THEN VAL(r[2]) ELSE IF r[1] = "bad" THEN RT(IF f = "parse.float" THEN 33020 ELSE 33030) ELSE SKIP
    [] f = "m.abs" -> IF rt[1] \in {"int", "long"} THEN IntResult(rt[1], GAbs(ToBig(x)), 27020)
                      ELSE IF IsNum(x) THEN VAL(IF Num(x) < 0 THEN NNeg(x) ELSE x) ELSE IF IsNan(x) THEN VAL(x) ELSE IF IsInf(x) THEN VAL(Inf(1)) ELSE SKIP
    [] f = "m.ceil" -> IF IsNum(x) THEN VAL(I(NCeil(x))) ELSE IF x[1] = "F" /\ x[2] \in {"nan", "inf", "-inf"} THEN VAL(x) ELSE SKIP
    [] f = "m.floor" -> IF IsNum(x) THEN VAL(I(NFloor(x))) ELSE IF x[1] = "F" /\ x[2] \in {"nan", "inf", "-inf"} THEN VAL(x) ELSE SKIP
    [] f = "m.rint" -> IF x[1] = "i" THEN VAL(x)
                       ELSE IF x[1] = "F" /\ x[2] \in {"nan", "inf", "-inf"} THEN VAL(x)
                       ELSE IF x[1] # "q" THEN SKIP
                       ELSE LET fl == NFloor(x)  fr == NSub(x, I(fl)) IN
                            VAL(I(IF NCmp(fr, <<"q", 1, 2>>) < 0 THEN fl
                                  ELSE IF NCmp(fr, <<"q", 1, 2>>) > 0 THEN fl + 1
                                  ELSE IF fl % 2 = 0 THEN fl ELSE fl + 1))
    [] f = "m.round" -> IF x[1] = "F" /\ x[2] \in {"nan", "inf", "-inf"} THEN RT(IF rt[1] = "int" THEN 27190 ELSE 27191)
                        ELSE IF ~Roundable(x) THEN SKIP ELSE IntResult(rt[1], RoundHalfUp(x), 27190)
    [] f = "m.signum" -> IF IsNum(x) THEN VAL(I(IF Num(x) > 0 THEN 1 ELSE IF Num(x) < 0 THEN -1 ELSE 0))
                         ELSE IF x = <<"F", "inf">> THEN VAL(I(1)) ELSE IF x = <<"F", "-inf">> THEN VAL(I(-1))
                         ELSE IF IsNan(x) THEN VAL(I(0)) ELSE IF x[1] = "I" THEN VAL(I(ToBig(x)[1])) ELSE SKIP
    [] f = "m.copysign" ->
         IF rt[1] \in {"int", "long"} THEN
            LET b == IF ToBig(a[2])[1] < 0 THEN GNeg(GAbs(ToBig(x))) ELSE GAbs(ToBig(x)) IN
            IF (rt[1] = "int" /\ InInt(b)) \/ (rt[1] = "long" /\ InLong(b)) THEN VAL(FromBig(b)) ELSE SKIP
         ELSE IF IsNum(x) /\ IsNum(a[2]) THEN VAL(IF (Num(x) < 0) # (Num(a[2]) < 0) THEN NNeg(x) ELSE x)
         ELSE IF IsNan(x) THEN VAL(x) ELSE IF IsNan(a[2]) \/ ~Sized(x) \/ ~Sized(a[2]) THEN SKIP
         ELSE IF IsInf(x) THEN VAL(Inf(IF SignOf(a[2]) < 0 THEN -1 ELSE 1))
         ELSE IF IsNum(x) THEN VAL(IF (Num(x) < 0) # (SignOf(a[2]) < 0) THEN NNeg(x) ELSE x) ELSE SKIP
    [] f = "m.sqrt" -> IF x[1] = "i" /\ x[2] < 0 THEN VAL(NAN)
                       ELSE IF x[1] = "i" /\ x[2] <= 10000 /\ IsSquare(x[2]) THEN VAL(I(Isqrt(x[2]))) ELSE SKIP
    [] f = "m.hypot" -> IF x[1] = "i" /\ a[2][1] = "i" /\ Abs(x[2]) <= 70 /\ Abs(a[2][2]) <= 70 /\ IsSquare(x[2]*x[2]+a[2][2]*a[2][2])
                        THEN VAL(I(Isqrt(x[2]*x[2]+a[2][2]*a[2][2]))) ELSE SKIP
    [] f = "m.exp" -> IF x = I(0) THEN VAL(I(1)) ELSE SKIP
    [] f = "m.ln" -> IF x = I(1) THEN VAL(I(0)) ELSE IF x = I(0) THEN VAL(<<"F", "-inf">>) ELSE IF IsNum(x) /\ Num(x) < 0 THEN VAL(NAN) ELSE SKIP
    [] f \in {"m.sin", "m.tan", "m.atan", "m.asin", "m.sinh", "m.tanh", "m.expm1", "m.ln1p"} -> IF x = I(0) THEN VAL(I(0)) ELSE SKIP
    [] f \in {"m.cos", "m.cosh"} -> IF x = I(0) THEN VAL(I(1)) ELSE SKIP
    [] f = "m.log" -> IF a[2][2] <= 0 THEN RT(27170) ELSE SKIP
    [] OTHER -> SKIP

Prefix(f, n) == IF Len(f) >= n THEN SubSeq(f, 1, n) ELSE ""
Lib(D, f, pts, rt, a) ==
  IF f \in CoreNames THEN Core(D, f, pts, rt, a)
  ELSE IF Prefix(f, 2) = "a." THEN Arr(D, f, pts, rt, a)
  ELSE IF Prefix(f, 4) = "map." THEN MapFn(D, f, pts, rt, a)
  ELSE IF Prefix(f, 2) = "s." THEN StrFn(D, f, pts, rt, a)
  ELSE IF Prefix(f, 6) = "bytes." THEN BytesFn(D, f, pts, rt, a)
  ELSE MiscFn(D, f, pts, rt, a)

\* the message that goes with a runtime error code (used by try filters)
RTMSG(code) ==
  CASE code \in {2000, 2002, 2004, 2006, 2008, 2010} -> "array index not found"
    [] code \in {2001, 2003, 2005, 2007, 2009, 2011} -> "map key not found"
    [] code \in {28071} -> "Minkowski parameter p must be positive"
    [] code \in {14030, 14040, 14050} -> "alpha out of range"
    [] code \in {23010} -> "arrays must have same length"
    [] code \in {14081, 14091, 22000} -> "bad histogram range"
    [] code \in {14083} -> "bad histogram ranges"
    [] code \in {14082, 14092, 22001} -> "bad histogram scale"
    [] code \in {40090, 40100, 40110, 40120, 40130, 40140, 40150} -> "bad time range"
    [] code \in {27170} -> "base must be positive"
    [] code \in {33001, 33011} -> "base out of range"
    [] code \in {14041, 14051} -> "beta out of range"
    [] code \in {14021} -> "cannot initialize unrecognized fields"
    [] code \in {10011} -> "classModel must be non-empty and strictly positive"
    [] code \in {24052} -> "contains non-finite value"
    [] code \in {37000} -> "counter out of range"
    [] code \in {10000, 10010} -> "datum and classModel misaligned"
    [] code \in {28000, 28020, 28070, 28080, 28090, 28100, 28110, 29022, 29041} -> "dimensions of vectors do not match"
    [] code \in {34071} -> "distribution must be finite"
    [] code \in {34070} -> "distribution must be non-empty"
    [] code \in {34072} -> "distribution must be non-negative"
    [] code \in {36000, 36010, 36020, 36040, 36050} -> "domain error"
    [] code \in {15020, 15030, 15040, 15050, 15240, 15250, 15260, 15270, 15280, 15290, 15300, 15310, 15320, 15330, 15340, 15350, 15360, 15370, 15380, 15390, 15450, 15460, 15470, 15670, 15680} -> "empty array"
    [] code \in {14053, 14060, 14070} -> "empty cycle"
    [] code \in {25000} -> "empty input"
    [] code \in {26120, 26130, 26140, 26150, 26160, 26170, 26180, 26190} -> "empty map"
    [] code \in {21051} -> "encountered +inf"
    [] code \in {21052} -> "encountered -inf"
    [] code \in {21050} -> "encountered nan"
    [] code \in {21000} -> "encountered null"
    [] code \in {14052} -> "gamma out of range"
    [] code \in {34000, 34010, 34020, 34030, 34081, 34091} -> "high must be greater than low"
    [] code \in {22011, 30001, 30011} -> "inconsistent dimensionality"
    [] code \in {15400, 15410, 17020, 18000, 18010, 18020, 18050, 18080, 27020, 27190} -> "int overflow"
    [] code \in {18040, 18060, 18070} -> "integer division by zero"
    [] code \in {16220} -> "invalid base64"
    [] code \in {34092} -> "invalid byte"
    [] code \in {16080, 16090, 16100, 16110, 16120, 16130} -> "invalid bytes"
    [] code \in {34082} -> "invalid char"
    [] code \in {13001, 13011, 13021, 13031, 13041, 13051, 13061, 13071, 13081, 13101, 13111, 13121, 13131, 13141, 13151, 13161, 13171, 13181, 13191, 13201, 13211, 13221, 13231, 13241, 13251, 13261, 13271, 13281, 13291, 13301, 13311, 13321, 13331, 13341, 13351, 13361, 13371, 13381, 13391, 13401, 13411, 13421, 13431, 13441, 13451, 13461, 13471} -> "invalid input"
    [] code \in {13000, 13010, 13020, 13030, 13040, 13050, 13060, 13070, 13080, 13090, 13100, 13110, 13120, 13130, 13140, 13150, 13160, 13170, 13180, 13190, 13200, 13210, 13220, 13230, 13240, 13250, 13260, 13270, 13280, 13290, 13300, 13310, 13320, 13330, 13340, 13350, 13360, 13370, 13380, 13390, 13400, 13410, 13420, 13430, 13440, 13450, 13460, 13470, 38060} -> "invalid parameterization"
    [] code \in {16140, 16150, 16160, 16170, 16180, 16190} -> "invalid string"
    [] code \in {29020} -> "k must be greater than zero"
    [] code \in {30010} -> "k must be nonnegative"
    [] code \in {31087} -> "krigingWeight is not finite"
    [] code \in {15401, 15411, 17030, 18001, 18011, 18021, 18051, 18081, 27021, 27191} -> "long overflow"
    [] code \in {31088} -> "matrix of kernel results is not positive definite"
    [] code \in {15150} -> "maxLength out of range"
    [] code \in {15650, 15660} -> "misaligned arrays"
    [] code \in {31000} -> "misaligned coeff"
    [] code \in {31001} -> "misaligned const"
    [] code \in {31010, 31042, 38032} -> "misaligned covariance"
    [] code \in {26370, 26380} -> "misaligned maps"
    [] code \in {24020, 24030, 24040, 24050} -> "misaligned matrices"
    [] code \in {31020, 31030, 31041, 38010, 38020, 38031} -> "misaligned prediction"
    [] code \in {31031, 38021} -> "misaligned uncertainty"
    [] code \in {15281, 15291, 15301, 15311, 15361, 15371, 15381, 15391, 26161, 26171, 26181, 26191} -> "n < 0"
    [] code \in {29010} -> "n must be nonnegative"
    [] code \in {39111} -> "negative number"
    [] code \in {39121} -> "negative precision"
    [] code \in {39110, 39120, 39240} -> "negative width cannot be used with zero-padding"
    [] code \in {29000, 29031} -> "no clusters"
    [] code \in {29030, 29040} -> "no data"
    [] code \in {11000} -> "no layers"
    [] code \in {32030} -> "no successful surrogate"
    [] code \in {12000} -> "no support vectors"
    [] code \in {17060, 17070, 17080, 17090, 17100} -> "non-distinct values in dictionary"
    [] code \in {24113} -> "non-finite matrix"
    [] code \in {24092, 24102, 24112} -> "non-square matrix"
    [] code \in {33030} -> "not a double-precision float"
    [] code \in {33010} -> "not a long integer"
    [] code \in {33020} -> "not a single-precision float"
    [] code \in {33000} -> "not an integer"
    [] code \in {30000} -> "not enough points"
    [] code \in {29021} -> "not enough unique points"
    [] code \in {15461} -> "p not a number"
    [] code \in {34083, 34093} -> "population must be non-empty"
    [] code \in {34040, 34050, 34060} -> "population must not be empty"
    [] code \in {34061} -> "population smaller than requested subsample"
    [] code \in {10020} -> "probability in classModel cannot be less than 0 or greater than 1"
    [] code \in {24061, 24071, 24080, 24091, 24101, 24111, 24121} -> "ragged columns"
    [] code \in {15770, 15780} -> "size < 1"
    [] code \in {34080, 34090} -> "size must be positive"
    [] code \in {15771} -> "step < 1"
    [] code \in {15190} -> "steps out of range"
    [] code \in {12001} -> "support vectors must have same length as datum"
    [] code \in {31080} -> "table must have at least 1 entry"
    [] code \in {22010} -> "table must have at least one entry"
    [] code \in {31082} -> "table must have the same number of features as x"
    [] code \in {31084} -> "table outputs must all have the same number of dimensions"
    [] code \in {31083} -> "table outputs must have at least 1 dimension"
    [] code \in {31086} -> "table value is not finite"
    [] code \in {40081} -> "timestamp undefined for given parameters"
    [] code \in {14011} -> "too few components"
    [] code \in {24051, 24060, 24070, 24090, 24100, 24110, 24120, 31040, 38030} -> "too few rows/cols"
    [] code \in {14012} -> "unequal length arrays"
    [] code \in {32020} -> "unrecognized logical operator"
    [] code \in {40080} -> "unrecognized timezone string"
    [] code \in {17000, 17010} -> "unrepresentable unsigned number"
    [] code \in {10001} -> "variance less than or equal to zero"
    [] code \in {11001} -> "weights, bias, or datum misaligned"
    [] code \in {14020} -> "windowSize must be at least 2"
    [] code \in {14080, 14090} -> "wrong histogram size"
    [] code \in {31085} -> "x is not finite"
    [] code \in {31081} -> "x must have at least 1 feature"
    [] code \in {22002} -> "x out of range"
    [] OTHER -> "?"
=============================================================================
