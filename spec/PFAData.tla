------------------------------ MODULE PFAData ------------------------------
(***************************************************************************)
(* Data at the boundary of an engine.                                      *)
(* JSON-like data j:                                                       *)
(*   <<"jn">> null  <<"jb", b>>  <<"ji", integer>>  <<"jd", real>>         *)
(*   <<"js", text, codes, plain>> (text is "" unless plain)                *)
(*   <<"jy", codes>> binary (not in documents)                             *)
(*   <<"ja", items>>  <<"jo", << <<name, value>>, .. >> >>                 *)
(* Values in memory keep union tags and the kind of number:                *)
(*   <<"n">> <<"b", b>> <<"i", n>>/<<"I", dec>> integers, <<"d", real>>,   *)
(*   <<"s", text>>/<<"u", codes>>, <<"y", codes>>, <<"a", seq>>,           *)
(*   <<"m", fn>>, <<"t", tag, value>>                                      *)
(* Decode(D, j, t, where) is <<"v", value>>, <<"no">> (refused) or <<"?">> *)
(* (left open); where is "data" (input of an engine) or "doc" (embedded).  *)
(***************************************************************************)
EXTENDS PFATypes, PFABig
TagOf(t) == IF t[1] \in {"rec", "enum", "fixed"} THEN t[2] ELSE t[1]
No == <<"no">>
Open == <<"?">>
Good(x) == <<"v", x>>
IntOf(j) == IF j[1] = "ji" THEN j[2] ELSE j[2]
WholeIn(x, In(_)) == IF x[1] = "i" THEN TRUE ELSE IF x[1] = "I" THEN In(ToBig(x)) ELSE FALSE
StrVal(j) == IF j[4] THEN <<"s", j[2]>> ELSE <<"u", j[3]>>
Trunc(n, d) == IF n >= 0 THEN n \div d ELSE -((-n) \div d)
Bytes256(c) == \A k \in 1..Len(c) : c[k] < 256
\* the outcome for a whole from the outcomes for its parts
Parts(rs) == IF \E k \in 1..Len(rs) : rs[k][1] = "no" THEN No
             ELSE IF \E k \in 1..Len(rs) : rs[k][1] = "?" THEN Open
             ELSE Good(TLCEval([k \in 1..Len(rs) |-> rs[k][2]]))
Keys(j) == {j[2][k][1] : k \in 1..Len(j[2])}
At(j, n) == j[2][CHOOSE k \in 1..Len(j[2]) : j[2][k][1] = n][2]
RECURSIVE Decode(_, _, _, _)
Decode(D, j, t, where) ==
  LET k == t[1] IN
  CASE k = "null" -> IF j[1] = "jn" THEN Good(NULL)
                     ELSE IF where = "data" /\ j[1] = "js" /\ j[2] = "null" THEN Open ELSE No
    [] k = "boolean" -> IF j[1] = "jb" THEN Good(<<"b", j[2]>>)
                        ELSE IF where = "data" /\ j[1] = "js" /\ j[2] \in {"true", "false"} THEN Open ELSE No
    [] k \in {"int", "long"} ->
         IF where = "data" /\ j[1] = "js" THEN Open    \* numbers as text are let through
         ELSE IF j[1] = "ji" \/ (where = "doc" /\ j[1] = "jd") THEN
           (IF j[2][1] = "F" THEN (IF j[2][2] \in {"nan", "inf", "-inf"} THEN No ELSE Open)
            \* the fraction of an embedded number is dropped
            ELSE IF j[2][1] = "q" THEN Good(<<"i", Trunc(j[2][2], j[2][3])>>)
            ELSE IF k = "int" THEN (IF WholeIn(j[2], InInt) THEN Good(j[2]) ELSE No)
            ELSE (IF WholeIn(j[2], InLong) THEN Good(j[2]) ELSE No))
         ELSE No
    [] k \in {"float", "double"} ->
         IF where = "data" /\ j[1] = "js" THEN Open
         ELSE IF j[1] = "jd" THEN Good(<<"d", j[2]>>)
         ELSE IF j[1] = "ji" THEN (IF j[2][1] = "i" THEN Good(<<"d", j[2]>>) ELSE Open)
         ELSE No
    [] k = "string" -> IF j[1] = "js" THEN Good(StrVal(j)) ELSE No
    [] k = "bytes" -> IF j[1] = "js" /\ Bytes256(j[3]) THEN Good(<<"y", j[3]>>)
                      ELSE IF where = "data" /\ j[1] = "jy" THEN Good(<<"y", j[2]>>) ELSE No
    [] k = "fixed" -> IF j[1] = "js" /\ Bytes256(j[3]) /\ Len(j[3]) = D[t[2]].n THEN Good(<<"y", j[3]>>)
                      ELSE IF where = "data" /\ j[1] = "jy" THEN (IF Len(j[2]) = D[t[2]].n THEN Good(<<"y", j[2]>>) ELSE No) ELSE No
    [] k = "enum" -> IF j[1] = "js" /\ j[4] /\ \E x \in Range(D[t[2]].syms) : x = j[2] THEN Good(<<"s", j[2]>>) ELSE No
    [] k = "array" ->
         IF j[1] # "ja" THEN No
         ELSE LET rs == Parts(TLCEval([x \in 1..Len(j[2]) |-> Decode(D, j[2][x], t[2], where)])) IN
              IF rs[1] = "v" THEN Good(<<"a", rs[2]>>) ELSE rs
    [] k = "map" ->
         IF j[1] # "jo" THEN No
         ELSE LET rs == Parts(TLCEval([x \in 1..Len(j[2]) |-> Decode(D, j[2][x][2], t[2], where)])) IN
              IF rs[1] = "v" THEN Good(<<"m", TLCEval([n \in Keys(j) |-> rs[2][CHOOSE x \in 1..Len(j[2]) : j[2][x][1] = n]])>>) ELSE rs
    [] k = "rec" ->
         IF j[1] # "jo" THEN No
         ELSE LET fs == D[t[2]].fields
                  rs == Parts(TLCEval([x \in 1..Len(fs) |->
                          IF fs[x][1] \in Keys(j) THEN Decode(D, At(j, fs[x][1]), fs[x][2], where)
                          ELSE IF where = "doc" /\ Len(fs[x]) > 2 THEN Decode(D, fs[x][3], fs[x][2], where)
                          ELSE IF where = "doc" /\ fs[x][2][1] = "null" THEN Open
                          ELSE No])) IN
              IF rs[1] = "v" THEN Good(<<"m", TLCEval([n \in {fs[x][1] : x \in 1..Len(fs)} |-> rs[2][CHOOSE x \in 1..Len(fs) : fs[x][1] = n]])>>) ELSE rs
    [] k = "union" ->
         LET ts == t[2]
             nul == \E x \in 1..Len(ts) : ts[x][1] = "null" IN
         IF j[1] = "jn" THEN (IF nul THEN Good(NULL) ELSE No)
         ELSE IF j[1] = "jo" /\ Len(j[2]) = 1 /\ \E x \in 1..Len(ts) : TagOf(ts[x]) = j[2][1][1]
              THEN LET b == ts[CHOOSE x \in 1..Len(ts) : TagOf(ts[x]) = j[2][1][1]]
                       r == Decode(D, j[2][1][2], b, where) IN
                   IF r[1] # "v" THEN r ELSE IF b[1] = "null" THEN r ELSE Good(<<"t", TagOf(b), r[2]>>)
         ELSE IF where = "doc" THEN No
         \* input data without a tag is taken when it fits exactly one branch; otherwise which branch is left open
         ELSE LET rs == TLCEval([x \in 1..Len(ts) |-> Decode(D, j, ts[x], where)])
                  fit == {x \in 1..Len(ts) : rs[x][1] # "no"} IN
              IF fit = {} THEN No
              ELSE IF Cardinality(fit) > 1 \/ (j[1] = "jo" /\ Len(j[2]) = 1) THEN Open
              ELSE LET x == CHOOSE y \in fit : TRUE IN
                   IF rs[x][1] = "?" THEN Open ELSE Good(<<"t", TagOf(ts[x]), rs[x][2]>>)
\* a value in memory as JSON (objects with their members in any order)
RECURSIVE Encode(_, _)
Encode(v, t) ==
  CASE v[1] = "n" -> <<"jn">>
    [] v[1] = "b" -> <<"jb", v[2]>>
    [] v[1] \in {"i", "I"} -> <<"ji", v>>
    [] v[1] = "d" -> <<"jd", v[2]>>
    [] v[1] = "s" -> <<"js", v[2]>>
    [] v[1] = "u" -> <<"ju", v[2]>>
    [] v[1] = "y" -> <<"jc", v[2]>>
    [] v[1] = "a" -> <<"ja", TLCEval([k \in 1..Len(v[2]) |-> Encode(v[2][k], t)])>>
    [] v[1] = "m" -> <<"jo", TLCEval([k \in DOMAIN v[2] |-> Encode(v[2][k], t)])>>
    [] v[1] = "t" -> <<"jo", (v[2] :> Encode(v[3], t))>>
\* recorded JSON in the notation of Encode, for a value known to be v
RECURSIVE Same(_, _)
Same(v, j) ==
  CASE v[1] = "n" -> j[1] = "jn"
    [] v[1] = "b" -> j[1] = "jb" /\ j[2] = v[2]
    [] v[1] \in {"i", "I"} -> j[1] = "ji" /\ j[2] = v
    [] v[1] = "d" -> j[1] \in {"jd", "ji"} /\ j[2] = v[2]
    [] v[1] = "s" -> j[1] = "js" /\ j[4] /\ j[2] = v[2]
    [] v[1] = "u" -> j[1] = "js" /\ j[3] = v[2]
    [] v[1] = "y" -> j[1] = "js" /\ j[3] = v[2]
    [] v[1] = "a" -> j[1] = "ja" /\ Len(j[2]) = Len(v[2]) /\ \A k \in 1..Len(v[2]) : Same(v[2][k], j[2][k])
    [] v[1] = "m" -> j[1] = "jo" /\ Keys(j) = DOMAIN v[2] /\ Len(j[2]) = Cardinality(Keys(j)) /\ \A k \in DOMAIN v[2] : Same(v[2][k], At(j, k))
    [] v[1] = "t" -> j[1] = "jo" /\ Len(j[2]) = 1 /\ j[2][1][1] = v[2] /\ Same(v[3], j[2][1][2])
\* the same without tags, as jsonEncoder(.., tagged=False) writes it
RECURSIVE SameBare(_, _)
SameBare(v, j) ==
  CASE v[1] = "a" -> j[1] = "ja" /\ Len(j[2]) = Len(v[2]) /\ \A k \in 1..Len(v[2]) : SameBare(v[2][k], j[2][k])
    [] v[1] = "m" -> j[1] = "jo" /\ Keys(j) = DOMAIN v[2] /\ \A k \in DOMAIN v[2] : SameBare(v[2][k], At(j, k))
    [] v[1] = "t" -> SameBare(v[3], j)
    [] OTHER -> Same(v, j)
\* does a value in memory belong to its type?
RECURSIVE Belongs(_, _, _)
Belongs(D, v, t) ==
  LET k == t[1] IN
  CASE k = "null" -> v[1] = "n"
    [] k = "boolean" -> v[1] = "b"
    [] k \in {"int", "long"} -> v[1] \in {"i", "I"}
    [] k \in {"float", "double"} -> v[1] = "d"
    [] k = "string" -> v[1] \in {"s", "u"}
    [] k = "bytes" -> v[1] = "y"
    [] k = "fixed" -> v[1] = "y" /\ Len(v[2]) = D[t[2]].n
    [] k = "enum" -> v[1] = "s" /\ v[2] \in Range(D[t[2]].syms)
    [] k = "array" -> v[1] = "a" /\ \A x \in 1..Len(v[2]) : Belongs(D, v[2][x], t[2])
    [] k = "map" -> v[1] = "m" /\ \A x \in DOMAIN v[2] : Belongs(D, v[2][x], t[2])
    [] k = "rec" -> v[1] = "m" /\ DOMAIN v[2] = FieldNames(D, t[2]) /\ \A x \in DOMAIN v[2] : Belongs(D, v[2][x], FieldType(D, t[2], x))
    [] k = "union" -> IF v[1] = "n" THEN \E x \in 1..Len(t[2]) : t[2][x][1] = "null"
                      ELSE v[1] = "t" /\ \E x \in 1..Len(t[2]) : TagOf(t[2][x]) = v[2] /\ Belongs(D, v[3], t[2][x])
=============================================================================
