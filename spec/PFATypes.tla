------------------------------ MODULE PFATypes ------------------------------
(***************************************************************************)
(* The PFA type system: acceptance, common (broadest) type, signature      *)
(* patterns.  Types are tuples:                                            *)
(*   <<"null">> <<"boolean">> <<"int">> <<"long">> <<"float">> <<"double">>*)
(*   <<"string">> <<"bytes">> <<"array", t>> <<"map", t>>                  *)
(*   <<"rec", name>> <<"enum", name>> <<"fixed", name>>                    *)
(*   <<"union", <<t..>>>> <<"fcn", <<params>>, ret>> <<"exc">>             *)
(* Named types are identified by their (full) name; their bodies live in a *)
(* declaration table D : name -> [k, ...].                                 *)
(***************************************************************************)
EXTENDS PFABase

TNull == <<"null">>   TBool == <<"boolean">>  TInt == <<"int">>   TLong == <<"long">>
TFloat == <<"float">> TDouble == <<"double">> TString == <<"string">> TBytes == <<"bytes">>
TExc == <<"exc">>
TArray(t) == <<"array", t>>
TMap(t) == <<"map", t>>
TUnion(ts) == <<"union", ts>>
TFcn(ps, r) == <<"fcn", ps, r>>

NumRank == [int |-> 1, long |-> 2, float |-> 3, double |-> 4]
IsNumT(t) == t[1] \in {"int", "long", "float", "double"}
IsUnion(t) == t[1] = "union"
UTypes(t) == IF IsUnion(t) THEN t[2] ELSE <<t>>

RECURSIVE TEq(_, _)
\* type equality: unions are sets of branches
TEq(a, b) ==
  IF a[1] # b[1] THEN FALSE
  ELSE CASE a[1] \in {"array", "map"} -> TEq(a[2], b[2])
         [] a[1] \in {"rec", "enum", "fixed"} -> a[2] = b[2]
         [] a[1] = "union" ->
              /\ Len(a[2]) = Len(b[2])
              /\ \A i \in 1..Len(a[2]) : \E j \in 1..Len(b[2]) : TEq(a[2][i], b[2][j])
              /\ \A j \in 1..Len(b[2]) : \E i \in 1..Len(a[2]) : TEq(a[2][i], b[2][j])
         [] a[1] = "fcn" ->
              /\ Len(a[2]) = Len(b[2])
              /\ \A i \in 1..Len(a[2]) : TEq(a[2][i], b[2][i])
              /\ TEq(a[3], b[3])
         [] OTHER -> TRUE

RECURSIVE Accepts(_, _)
\* a.accepts(b): a value of type b may be used where a is expected
Accepts(a, b) ==
  IF IsUnion(b) THEN \A j \in 1..Len(b[2]) : Accepts(a, b[2][j])
  ELSE IF IsUnion(a) THEN \E i \in 1..Len(a[2]) : Accepts(a[2][i], b)
  ELSE IF IsNumT(a) THEN IsNumT(b) /\ NumRank[b[1]] <= NumRank[a[1]]
  ELSE IF a[1] # b[1] THEN FALSE
  ELSE CASE a[1] \in {"array", "map"} -> Accepts(a[2], b[2])
         [] a[1] \in {"rec", "enum", "fixed"} -> a[2] = b[2]
         [] a[1] = "fcn" ->
              /\ Len(a[2]) = Len(b[2])
              /\ \A i \in 1..Len(a[2]) : Accepts(b[2][i], a[2][i])
              /\ Accepts(a[3], b[3])
         [] a[1] = "exc" -> FALSE
         [] OTHER -> TRUE

(***************************************************************************)
(* The broadest type of a list of types: <<TRUE, t>> or <<FALSE>>.         *)
(***************************************************************************)
RECURSIVE Distinct(_, _)
\* flatten unions, keep the broader of comparable members, in order
Distinct(cands, out) ==
  IF cands = <<>> THEN out
  ELSE LET c == Head(cands) IN
       IF IsUnion(c) THEN Distinct(Tail(cands), Distinct(c[2], out))
       ELSE IF \E i \in 1..Len(out) : Accepts(out[i], c) THEN Distinct(Tail(cands), out)
       ELSE IF \E i \in 1..Len(out) : Accepts(c, out[i])
            THEN LET i == CHOOSE i \in 1..Len(out) : Accepts(c, out[i]) /\ \A j \in 1..(i-1) : ~Accepts(c, out[j])
                 IN Distinct(Tail(cands), [out EXCEPT ![i] = c])
       ELSE Distinct(Tail(cands), Append(out, c))

AllKind(ts, ks) == \A i \in 1..Len(ts) : ts[i][1] \in ks
NumName(r) == CASE r = 1 -> "int" [] r = 2 -> "long" [] r = 3 -> "float" [] OTHER -> "double"
RECURSIVE MaxRank(_)
MaxRank(ts) == IF Len(ts) = 1 THEN NumRank[ts[1][1]] ELSE Max2(NumRank[ts[1][1]], MaxRank(Tail(ts)))
Count(Test(_), s) == Cardinality({i \in 1..Len(s) : Test(s[i])})

RECURSIVE Broadest(_)
Broadest(cands) ==
  LET real == SeqFilter(LAMBDA t : t[1] # "exc", cands) IN
  IF real = <<>> THEN <<FALSE>>
  ELSE IF AllKind(real, {"int", "long", "float", "double"}) THEN <<TRUE, <<NumName(MaxRank(real))>>>>
  ELSE IF \E k \in {"null", "boolean", "bytes", "string"} : AllKind(real, {k}) THEN <<TRUE, real[1]>>
  ELSE IF \E k \in {"array", "map"} : AllKind(real, {k})
       THEN LET b == Broadest(TLCEval([i \in 1..Len(real) |-> real[i][2]]))
            IN IF b[1] THEN <<TRUE, <<real[1][1], b[2]>>>> ELSE <<FALSE>>
  ELSE IF \E k \in {"rec", "enum", "fixed"} : AllKind(real, {k})
       THEN IF \A i \in 1..Len(real) : real[i][2] = real[1][2] THEN <<TRUE, real[1]>> ELSE <<FALSE>>
  ELSE IF AllKind(real, {"fcn"})
       THEN IF \A i \in 1..Len(real) : TEq(real[i], real[1]) THEN <<TRUE, real[1]>> ELSE <<FALSE>>
  ELSE IF \E i \in 1..Len(real) : real[i][1] = "fcn" THEN <<FALSE>>
  ELSE LET d == Distinct(real, <<>>) IN
       IF \E k \in {"fixed", "enum", "array", "map"} : Count(LAMBDA t : t[1] = k, d) > 1 THEN <<FALSE>>
       ELSE <<TRUE, TUnion(d)>>

(***************************************************************************)
(* Signature patterns.                                                     *)
(*   primitive types as above; <<"array",p>> <<"map",p>> <<"union",ps>>    *)
(*   <<"rec",name>> etc.; <<"fcn",ps,r>>;                                  *)
(*   <<"wild", label, oneOf>>  (oneOf = <<>> : any type)                   *)
(*   <<"wrec", label, <<<<field, pat>>..>>>>  record with at least ...     *)
(*   <<"wenum", label>>  <<"wfixed", label>>                               *)
(* Matching collects, per label, the list of types it was matched against. *)
(* L : label -> Seq(type).  Result <<TRUE, L>> or <<FALSE>>.               *)
(* strict: numeric promotion not allowed; rev: inside function parameters, *)
(* where promotion goes the other way.                                     *)
(***************************************************************************)
AddLabel(L, l, t) == IF l \in DOMAIN L THEN [L EXCEPT ![l] = Append(@, t)] ELSE Put(L, l, <<t>>)
FieldType(D, name, f) == LET fs == D[name].fields IN fs[CHOOSE i \in 1..Len(fs) : fs[i][1] = f][2]
FieldNames(D, name) == {D[name].fields[i][1] : i \in 1..Len(D[name].fields)}
FieldSeq(D, name) == TLCEval([i \in 1..Len(D[name].fields) |-> D[name].fields[i][1]])
PrimNames == {"null", "boolean", "int", "long", "float", "double", "string", "bytes"}

RECURSIVE Match(_, _, _, _, _, _), MatchSeq(_, _, _, _, _, _), MatchUnionPerm(_, _, _, _, _, _), MatchFields(_, _, _, _, _, _)
Match(D, p, t, L, strict, rev) ==
  IF t[1] = "exc" THEN <<FALSE>>
  ELSE IF p[1] = "wild" THEN
       IF p[3] = <<>> \/ \E i \in 1..Len(p[3]) : TEq(p[3][i], t) THEN <<TRUE, AddLabel(L, p[2], t)>> ELSE <<FALSE>>
  ELSE IF p[1] = "wrec" THEN
       IF t[1] = "rec" /\ {p[3][i][1] : i \in 1..Len(p[3])} \subseteq FieldNames(D, t[2])
       THEN MatchFields(D, p[3], t[2], AddLabel(L, p[2], t), TRUE, rev) ELSE <<FALSE>>
  ELSE IF p[1] = "efields" THEN   \* an enum whose symbols are exactly the fields of the record labelled by p[3]
       IF t[1] = "enum" THEN <<TRUE, AddLabel(AddLabel(L, p[2], t), "=" \o p[3], t)>> ELSE <<FALSE>>
  ELSE IF p[1] = "wenum" THEN IF t[1] = "enum" THEN <<TRUE, AddLabel(L, p[2], t)>> ELSE <<FALSE>>
  ELSE IF p[1] = "wfixed" THEN IF t[1] = "fixed" THEN <<TRUE, AddLabel(L, p[2], t)>> ELSE <<FALSE>>
  ELSE IF IsNumT(p) THEN
       IF ~IsNumT(t) THEN <<FALSE>>
       ELSE LET rp == NumRank[p[1]]  rt == NumRank[t[1]] IN
            IF rp = rt \/ (~strict /\ ~rev /\ rt <= rp) \/ (~strict /\ rev /\ rp <= rt) THEN <<TRUE, L>> ELSE <<FALSE>>
  ELSE IF p[1] \in PrimNames THEN IF t[1] = p[1] THEN <<TRUE, L>> ELSE <<FALSE>>
  ELSE IF p[1] \in {"array", "map"} THEN IF t[1] = p[1] THEN Match(D, p[2], t[2], L, strict, rev) ELSE <<FALSE>>
  ELSE IF p[1] = "union" THEN
       IF t[1] = "fcn" THEN <<FALSE>>
       ELSE IF IsUnion(t) THEN MatchUnionPerm(D, p[2], t[2], L, {}, rev)
       ELSE LET ok == {i \in 1..Len(p[2]) : Match(D, p[2][i], t, L, strict, rev)[1]} IN
            IF ok = {} THEN <<FALSE>> ELSE Match(D, p[2][CHOOSE i \in ok : \A j \in ok : i <= j], t, L, strict, rev)
  ELSE IF p[1] \in {"rec", "enum", "fixed"} THEN IF t[1] = p[1] /\ t[2] = p[2] THEN <<TRUE, L>> ELSE <<FALSE>>
  ELSE IF p[1] = "fcn" THEN
       IF t[1] # "fcn" \/ Len(t[2]) # Len(p[2]) THEN <<FALSE>>
       ELSE LET r == MatchSeq(D, p[2], t[2], L, strict, TRUE) IN
            IF ~r[1] THEN <<FALSE>> ELSE Match(D, p[3], t[3], r[2], strict, FALSE)
  ELSE <<FALSE>>
MatchSeq(D, ps, ts, L, strict, rev) ==
  IF ps = <<>> THEN <<TRUE, L>>
  ELSE LET r == Match(D, Head(ps), Head(ts), L, strict, rev) IN
       IF r[1] THEN MatchSeq(D, Tail(ps), Tail(ts), r[2], strict, rev) ELSE <<FALSE>>
\* every branch of the argument union is matched strictly by its own branch of the pattern
MatchUnionPerm(D, ps, ts, L, used, rev) ==
  IF ts = <<>> THEN <<TRUE, L>>
  ELSE LET cand == {i \in (1..Len(ps)) \ used :
                      LET r == Match(D, ps[i], Head(ts), L, TRUE, rev)
                      IN r[1] /\ MatchUnionPerm(D, ps, Tail(ts), r[2], used \cup {i}, rev)[1]}
       IN IF cand = {} THEN <<FALSE>>
          ELSE LET i == CHOOSE i \in cand : \A j \in cand : i <= j
                   r == Match(D, ps[i], Head(ts), L, TRUE, rev)
               IN MatchUnionPerm(D, ps, Tail(ts), r[2], used \cup {i}, rev)
MatchFields(D, fps, name, L, strict, rev) ==
  IF fps = <<>> THEN <<TRUE, L>>
  ELSE LET r == Match(D, Head(fps)[2], FieldType(D, name, Head(fps)[1]), L, strict, rev) IN
       IF r[1] THEN MatchFields(D, Tail(fps), name, r[2], strict, rev) ELSE <<FALSE>>

RECURSIVE RetLabels(_)
RetLabels(p) ==
  CASE p[1] \in {"wild", "wrec", "wenum", "wfixed", "efields"} -> {p[2]}
    [] p[1] \in {"array", "map"} -> RetLabels(p[2])
    [] p[1] = "union" -> UNION {RetLabels(p[2][i]) : i \in 1..Len(p[2])}
    [] OTHER -> {}
RECURSIVE SubstRet(_, _), SubstParam(_, _, _)
SubstRet(p, As) ==
  CASE p[1] \in {"wild", "wrec", "wenum", "wfixed", "efields"} -> As[p[2]]
    [] p[1] \in {"array", "map"} -> <<p[1], SubstRet(p[2], As)>>
    [] p[1] = "union" -> TUnion(TLCEval([i \in 1..Len(p[2]) |-> SubstRet(p[2][i], As)]))
    [] OTHER -> p
\* the type a parameter takes: the pattern with labels resolved; unions and functions keep the argument's type
SubstParam(p, t, As) ==
  CASE p[1] \in {"wild", "wrec", "wenum", "wfixed", "efields"} -> As[p[2]]
    [] p[1] \in {"array", "map"} -> <<p[1], SubstParam(p[2], t[2], As)>>
    [] p[1] \in {"union", "fcn"} -> t
    [] OTHER -> p

\* sig = [params |-> <<pat..>>, ret |-> pat]; result <<TRUE, paramTypes, retType>> or <<FALSE>>
SigAccept(D, sig, args) ==
  IF Len(sig.params) # Len(args) THEN <<FALSE>>
  ELSE LET r == MatchSeq(D, sig.params, args, [x \in {} |-> <<>>], FALSE, FALSE) IN
       IF ~r[1] THEN <<FALSE>>
       ELSE LET ls == {l \in DOMAIN r[2] : CharAt(l, 1) # "="}
                bs == TLCEval([l \in ls |-> Broadest(r[2][l])]) IN
            IF \E l \in ls : ~bs[l][1] THEN <<FALSE>>
            ELSE IF \E l \in (DOMAIN r[2]) \ ls : LET m == SubSeq(l, 2, Len(l)) IN
                      m \notin ls \/ bs[m][2][1] # "rec" \/ FieldSeq(D, bs[m][2][2]) # D[Last(r[2][l])[2]].syms THEN <<FALSE>>
            ELSE LET As == TLCEval([l \in ls |-> bs[l][2]]) IN
                 IF ~(RetLabels(sig.ret) \subseteq ls) THEN <<FALSE>>    \* a label nothing was matched against
                 ELSE <<TRUE, TLCEval([i \in 1..Len(args) |-> SubstParam(sig.params[i], args[i], As)]), SubstRet(sig.ret, As)>>
RECURSIVE SigsAccept(_, _, _)
SigsAccept(D, sigs, args) ==
  IF sigs = <<>> THEN <<FALSE>>
  ELSE LET r == SigAccept(D, Head(sigs), args) IN
       IF r[1] THEN r ELSE SigsAccept(D, Tail(sigs), args)

(***************************************************************************)
(* Does value v conform to type t?                                         *)
(***************************************************************************)
RECURSIVE Conforms(_, _, _)
Conforms(D, v, t) ==
  CASE v[1] = "P" -> TRUE
    [] t[1] = "null" -> v[1] = "n"
    [] t[1] = "boolean" -> v[1] = "b"
    [] t[1] = "int" -> v[1] = "i" \/ v = <<"I", "-2147483648">>
    [] t[1] = "long" -> v[1] \in {"i", "I"}
    [] t[1] \in {"float", "double"} -> v[1] \in {"i", "I", "q", "F"}
    [] t[1] = "string" -> v[1] \in {"s", "u"}
    [] t[1] = "bytes" -> v[1] = "y"
    [] t[1] = "fixed" -> v[1] = "y" /\ Len(v[2]) = D[t[2]].n
    [] t[1] = "enum" -> v[1] = "s" /\ SeqHas(D[t[2]].syms, v[2])
    [] t[1] = "array" -> v[1] = "a" /\ \A i \in 1..Len(v[2]) : Conforms(D, v[2][i], t[2])
    [] t[1] = "map" -> v[1] = "m" /\ \A k \in DOMAIN v[2] : Conforms(D, v[2][k], t[2])
    [] t[1] = "rec" -> v[1] = "m" /\ DOMAIN v[2] = FieldNames(D, t[2])
                        /\ \A k \in DOMAIN v[2] : Conforms(D, v[2][k], FieldType(D, t[2], k))
    [] t[1] = "union" -> \E i \in 1..Len(t[2]) : Conforms(D, v, t[2][i])
    [] OTHER -> FALSE
=============================================================================
