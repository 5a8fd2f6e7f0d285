----------------------------- MODULE PFAReader -----------------------------
(***************************************************************************)
(* Reading documents: the program a JSON document denotes.                 *)
(* JSON is in the notation of PFAData; R(..) results are                   *)
(*   <<"y", program>>  <<"n", why>> (not a document)  <<"?", why>>         *)
(* Programs are the tuples of PFALang.                                     *)
(***************************************************************************)
EXTENDS PFAEngine, PFAData
Yes(x) == <<"y", x>>
Not(why) == <<"n", why>>
Huh(why) == <<"?", why>>
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Figures == {"0","1","2","3","4","5","6","7","8","9"}
Ch(s, k) == SubSeq(s, k, k)
IsName(s) == /\ Len(s) > 0
             /\ Ch(s, 1) \in Letters \cup {"_"}
             /\ \A k \in 2..Len(s) : Ch(s, k) \in Letters \cup Figures \cup {"_"}
RECURSIVE Split(_)
Split(s) == LET d == {k \in 1..Len(s) : Ch(s, k) = "."} IN
            IF d = {} THEN <<s>>
            ELSE LET k == CHOOSE x \in d : \A y \in d : x <= y IN <<SubSeq(s, 1, k - 1)>> \o Split(SubSeq(s, k + 1, Len(s)))
\* names of functions: parts separated by dots, each but the first beginning with a letter
IsFcnName(s) == LET ws == Split(s) IN
                /\ IsName(ws[1])
                /\ \A k \in 2..Len(ws) : IsName(ws[k]) /\ Ch(ws[k], 1) # "_"
Allf(s) == Len(s) > 0 /\ \A k \in 1..Len(s) : Ch(s, k) \in Figures
FigVal == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4) @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)
RECURSIVE NumOf(_)
NumOf(s) == IF Len(s) = 1 THEN FigVal[s] ELSE 10 * NumOf(SubSeq(s, 1, Len(s) - 1)) + FigVal[Ch(s, Len(s))]
IsStr(j) == j[1] = "js"
IsPlain(j) == j[1] = "js" /\ j[4]
IsObj(j) == j[1] = "jo"
IsArr(j) == j[1] = "ja"
IsWhole(j) == j[1] = "ji"
NumLit(k, t, v) == IF v[1] = "i" THEN <<k, v[2], 1>> ELSE IF v[1] = "q" THEN <<k, v[2], v[3]>> ELSE <<"lit", t, v>>

\* combine results of parts
RECURSIVE AllOf(_)
AllOf(rs) == IF rs = <<>> THEN Yes(<<>>)
             ELSE LET t == AllOf(Tail(rs)) IN
                  IF Head(rs)[1] = "n" THEN Head(rs) ELSE IF t[1] = "n" THEN t
                  ELSE IF Head(rs)[1] = "?" THEN Head(rs) ELSE IF t[1] = "?" THEN t
                  ELSE Yes(<<Head(rs)[2]>> \o t[2])

\* types: D tells what each declared name is
RECURSIVE RType(_, _)
RType(D, j) ==
  IF IsPlain(j) THEN
     (IF j[2] \in {"null", "boolean", "int", "long", "float", "double", "string", "bytes"} THEN Yes(<<j[2]>>)
      ELSE IF j[2] \in DOMAIN D THEN Yes(<<D[j[2]].k, j[2]>>)
      ELSE Not("no such type"))
  ELSE IF IsArr(j) THEN
     LET rs == AllOf(TLCEval([k \in 1..Len(j[2]) |-> RType(D, j[2][k])])) IN
     IF rs[1] # "y" THEN rs
     ELSE IF \E k \in 1..Len(rs[2]) : rs[2][k][1] = "union" \/ \E m \in 1..Len(rs[2]) : m # k /\ TagOf(rs[2][m]) = TagOf(rs[2][k]) THEN Not("union")
     ELSE Yes(<<"union", rs[2]>>)
  ELSE IF IsObj(j) /\ "type" \in Keys(j) THEN
     LET k == At(j, "type") IN
     IF ~IsPlain(k) THEN Not("type")
     ELSE IF k[2] = "array" THEN (IF "items" \in Keys(j) THEN (LET r == RType(D, At(j, "items")) IN IF r[1] = "y" THEN Yes(<<"array", r[2]>>) ELSE r) ELSE Not("items"))
     ELSE IF k[2] = "map" THEN (IF "values" \in Keys(j) THEN (LET r == RType(D, At(j, "values")) IN IF r[1] = "y" THEN Yes(<<"map", r[2]>>) ELSE r) ELSE Not("values"))
     ELSE IF k[2] \in {"record", "enum", "fixed"} THEN
        (IF "name" \in Keys(j) /\ IsPlain(At(j, "name")) /\ At(j, "name")[2] \in DOMAIN D THEN Yes(<<D[At(j, "name")[2]].k, At(j, "name")[2]>>) ELSE Huh("named type"))
     ELSE RType(D, k)
  ELSE Not("type")

\* values without the tags of unions
RECURSIVE Bare(_)
Bare(v) ==
  CASE v[1] = "d" -> v[2]
    [] v[1] = "t" -> Bare(v[3])
    [] v[1] = "a" -> <<"a", TLCEval([k \in 1..Len(v[2]) |-> Bare(v[2][k])])>>
    [] v[1] = "m" -> <<"m", TLCEval([k \in DOMAIN v[2] |-> Bare(v[2][k])])>>
    [] OTHER -> v
RValue(D, j, t) == LET r == Decode(D, j, t, "doc") IN
                   IF r[1] = "v" THEN Yes(Bare(r[2])) ELSE IF r[1] = "no" THEN Huh("value that does not fit") ELSE Huh("value")

\* forms: the sets of keys that make a special form; any other single key is a call
FormKeys == {"args", "as", "attr", "base64", "call", "cases", "cast", "cell", "code", "cond", "del", "do", "doc", "double", "else", "error", "fcn", "fill", "filter", "float",
            "for", "foreach", "forkey", "format", "forval", "if", "ifnotnull", "in", "init", "int", "let", "log", "long", "namespace", "new", "pack", "params",
            "partial", "path", "pool", "ret", "seq", "set", "step", "string", "then", "to", "try", "type", "unpack", "until", "upcast", "value", "while"}
Arguments == {"fref", "fill", "fdef"}
RECURSIVE RArg(_, _), RExpr(_, _), RBlock(_, _, _), RList(_, _, _), RArgs(_, _), RNamed(_, _, _), RFcn(_, _), RCase(_, _), RParams(_, _), RPairs(_, _)
RExpr(D, j) == LET r == RArg(D, j) IN IF r[1] = "y" /\ r[2][1] \in Arguments THEN Not("argument outside of a call") ELSE r
\* an array of expressions, at least min long
RList(D, j, min) == IF ~IsArr(j) THEN Not("array of expressions")
                    ELSE IF Len(j[2]) < min THEN Not("too few expressions")
                    ELSE AllOf(TLCEval([k \in 1..Len(j[2]) |-> RExpr(D, j[2][k])]))
\* one expression or an array of them
RBlock(D, j, min) == IF IsArr(j) THEN RList(D, j, min)
                     ELSE LET r == RExpr(D, j) IN IF r[1] = "y" THEN Yes(<<r[2]>>) ELSE r
RArgs(D, j) == IF IsArr(j) THEN AllOf(TLCEval([k \in 1..Len(j[2]) |-> RArg(D, j[2][k])]))
               ELSE LET r == RArg(D, j) IN IF r[1] = "y" THEN Yes(<<r[2]>>) ELSE r
RNamed(D, j, min) == IF ~IsObj(j) THEN Not("named expressions")
                ELSE IF Len(j[2]) < min THEN Not("too few named expressions")
                ELSE LET rs == AllOf(TLCEval([k \in 1..Len(j[2]) |-> RExpr(D, j[2][k][2])])) IN
                     IF rs[1] # "y" THEN rs ELSE Yes(TLCEval([k \in 1..Len(j[2]) |-> <<j[2][k][1], rs[2][k]>>]))
RParams(D, j) == IF ~IsArr(j) THEN Not("parameters")
                 ELSE AllOf(TLCEval([k \in 1..Len(j[2]) |->
                        LET p == j[2][k] IN
                        IF ~IsObj(p) \/ Len(p[2]) # 1 THEN Not("parameter")
                        ELSE IF ~IsName(p[2][1][1]) THEN Not("parameter name")
                        ELSE LET t == RType(D, p[2][1][2]) IN IF t[1] = "y" THEN Yes(<<p[2][1][1], t[2]>>) ELSE t]))
RFcn(D, j) == IF ~IsObj(j) \/ Keys(j) # {"params", "ret", "do"} THEN Not("function definition")
              ELSE LET rs == AllOf(<<RParams(D, At(j, "params")), RType(D, At(j, "ret")), RBlock(D, At(j, "do"), 1)>>) IN
                   IF rs[1] = "y" THEN Yes(<<"fdef">> \o rs[2]) ELSE rs
RCase(D, j) == IF ~IsObj(j) \/ Keys(j) # {"as", "named", "do"} THEN Not("cast case")
               ELSE IF ~IsPlain(At(j, "named")) \/ ~IsName(At(j, "named")[2]) THEN Not("cast case name")
               ELSE LET rs == AllOf(<<RType(D, At(j, "as")), RBlock(D, At(j, "do"), 1)>>) IN
                    IF rs[1] = "y" THEN Yes(<<rs[2][1], At(j, "named")[2], rs[2][2]>>) ELSE rs
\* several parts of a form: <<"y", program tuple>> built by the caller from their programs
RPairs(D, j) == IF ~IsArr(j) THEN Not("array of pairs") ELSE AllOf(TLCEval([k \in 1..Len(j[2]) |->
                  IF ~IsObj(j[2][k]) \/ Len(j[2][k][2]) # 1 THEN Not("pair")
                  ELSE LET r == RExpr(D, j[2][k][2][1][2]) IN IF r[1] = "y" THEN Yes(<<j[2][k][2][1][1], r[2]>>) ELSE r]))
Form(head, rs) == LET r == AllOf(rs) IN IF r[1] = "y" THEN Yes(<<head>> \o r[2]) ELSE r
Text(j) == IF ~IsStr(j) THEN Not("string") ELSE IF IsPlain(j) THEN Yes(j[2]) ELSE Huh("string")
Flag(j) == IF j[1] = "jb" THEN Yes(j[2]) ELSE Not("boolean")
Symbol(j) == LET r == Text(j) IN IF r[1] # "y" THEN r ELSE IF IsName(r[2]) THEN r ELSE Not("name")
RArg(D, j) ==
  CASE j[1] = "jn" -> Yes(<<"null">>)
    [] j[1] = "jb" -> Yes(<<"bool", j[2]>>)
    [] j[1] = "ji" -> IF WholeIn(j[2], InInt) THEN Yes(<<"int", j[2][2]>>)
                      ELSE IF WholeIn(j[2], InLong) THEN Yes(<<"lit", TLong, j[2]>>) ELSE Not("integer out of range")
    [] j[1] = "jd" -> Yes(NumLit("dbl", TDouble, j[2]))
    [] j[1] = "js" -> IF ~IsPlain(j) THEN Not("name")
                      ELSE LET ws == Split(j[2]) IN
                           IF Len(ws) = 1 THEN (IF IsName(j[2]) THEN Yes(<<"ref", j[2]>>) ELSE Not("name"))
                           ELSE IF ~IsName(ws[1]) THEN Not("name")
                           ELSE Yes(<<"attr", <<"ref", ws[1]>>, TLCEval([k \in 1..(Len(ws) - 1) |-> IF Allf(ws[k + 1]) THEN <<"int", NumOf(ws[k + 1])>> ELSE <<"str", ws[k + 1]>>])>>)
    [] j[1] = "ja" -> IF Len(j[2]) = 1 /\ IsStr(j[2][1]) THEN (IF IsPlain(j[2][1]) THEN Yes(<<"str", j[2][1][2]>>) ELSE Yes(<<"lit", TString, StrVal(j[2][1])>>))
                      ELSE Not("array as an expression")
    [] OTHER ->
       LET ks == Keys(j)
           x(k) == At(j, k)
           e(k) == RExpr(D, x(k))
           es(k, min) == RBlock(D, x(k), min)
           \* every part is read even where the form as a whole is wrong
           path == IF "path" \in ks THEN RList(D, x("path"), 0) ELSE Yes(<<>>) IN
       CASE ks = {"int"} -> IF IsWhole(x("int")) /\ WholeIn(x("int")[2], InInt) THEN Yes(<<"int", x("int")[2][2]>>) ELSE Not("int")
         [] ks = {"long"} -> IF ~IsWhole(x("long")) \/ ~WholeIn(x("long")[2], InLong) THEN Not("long")
                             ELSE IF x("long")[2][1] = "i" THEN Yes(<<"long", x("long")[2][2]>>) ELSE Yes(<<"lit", TLong, x("long")[2]>>)
         [] ks = {"float"} -> IF x("float")[1] \in {"ji", "jd"} THEN Yes(NumLit("flt", TFloat, x("float")[2])) ELSE Not("float")
         [] ks = {"double"} -> IF x("double")[1] \in {"ji", "jd"} THEN Yes(NumLit("dbl", TDouble, x("double")[2])) ELSE Not("double")
         [] ks = {"string"} -> IF ~IsStr(x("string")) THEN Not("string") ELSE IF IsPlain(x("string")) THEN Yes(<<"str", x("string")[2]>>) ELSE Yes(<<"lit", TString, StrVal(x("string"))>>)
         [] ks = {"base64"} -> IF IsStr(x("base64")) THEN Huh("base64") ELSE Not("base64")
         [] ks = {"type", "value"} -> LET t == RType(D, x("type")) IN
                                      IF t[1] # "y" THEN t ELSE LET v == RValue(D, x("value"), t[2]) IN IF v[1] = "y" THEN Yes(<<"lit", t[2], v[2]>>) ELSE v
         [] ks = {"new", "type"} ->
              LET t == RType(D, x("type")) IN
              IF IsObj(x("new")) THEN (LET r == RNamed(D, x("new"), 0) IN IF r[1] = "n" THEN r ELSE IF t[1] # "y" THEN t ELSE IF r[1] = "?" THEN r
                                       ELSE Yes(<<IF t[2][1] = "map" THEN "newmap" ELSE "newrec", t[2], r[2]>>))
              ELSE IF IsArr(x("new")) THEN (LET r == RList(D, x("new"), 0) IN IF r[1] = "n" THEN r ELSE IF t[1] # "y" THEN t ELSE IF r[1] = "?" THEN r ELSE Yes(<<"newarr", t[2], r[2]>>))
              ELSE Not("new")
         [] ks = {"do"} -> Form("do", <<es("do", 1)>>)
         [] ks = {"let"} -> Form("let", <<RNamed(D, x("let"), 1)>>)
         [] ks = {"set"} -> Form("set", <<RNamed(D, x("set"), 1)>>)
         [] ks = {"attr", "path"} -> Form("attr", <<e("attr"), RList(D, x("path"), 1)>>)
         [] ks = {"attr", "path", "to"} -> Form("attrto", <<e("attr"), RList(D, x("path"), 1), RArg(D, x("to"))>>)
         [] ks \in {{"cell"}, {"cell", "path"}} -> Form("cell", <<Text(x("cell")), path>>)
         [] ks \in {{"cell", "to"}, {"cell", "path", "to"}} -> Form("cellto", <<Text(x("cell")), path, RArg(D, x("to"))>>)
         [] ks = {"pool", "path"} -> Form("pool", <<Text(x("pool")), RList(D, x("path"), 1)>>)
         [] ks = {"pool", "path", "to", "init"} -> Form("poolto", <<Text(x("pool")), RList(D, x("path"), 1), RArg(D, x("to")), e("init")>>)
         [] ks = {"pool", "del"} -> Form("pooldel", <<Text(x("pool")), e("del")>>)
         [] ks = {"if", "then"} -> Form("if", <<e("if"), es("then", 1)>>)
         [] ks = {"if", "then", "else"} -> Form("ifelse", <<e("if"), es("then", 1), es("else", 1)>>)
         [] ks \in {{"cond"}, {"cond", "else"}} ->
              LET r == RList(D, x("cond"), 1)
                  r2 == IF "else" \in ks THEN es("else", 1) ELSE Yes(<<>>) IN
              IF r[1] = "n" THEN r ELSE IF r2[1] = "n" THEN r2
              ELSE IF r[1] = "y" /\ \E k \in 1..Len(r[2]) : r[2][k][1] # "if" THEN Not("cond clause")
              ELSE IF r[1] = "?" THEN r ELSE IF r2[1] = "?" THEN r2
              ELSE LET cs == TLCEval([k \in 1..Len(r[2]) |-> <<r[2][k][2], r[2][k][3]>>]) IN
                   IF "else" \in ks THEN Yes(<<"condelse", cs, r2[2]>>) ELSE Yes(<<"cond", cs>>)
         [] ks = {"while", "do"} -> Form("while", <<e("while"), es("do", 0)>>)
         [] ks = {"do", "until"} -> Form("until", <<es("do", 0), e("until")>>)
         [] ks = {"for", "while", "step", "do"} -> Form("for", <<RNamed(D, x("for"), 1), e("while"), RNamed(D, x("step"), 1), es("do", 1)>>)
         [] ks \in {{"foreach", "in", "do"}, {"foreach", "in", "do", "seq"}} ->
              Form("foreach", <<Symbol(x("foreach")), e("in"), es("do", 1), IF "seq" \in ks THEN Flag(x("seq")) ELSE Yes(TRUE)>>)
         [] ks = {"forkey", "forval", "in", "do"} -> Form("forkv", <<Symbol(x("forkey")), Symbol(x("forval")), e("in"), es("do", 1)>>)
         [] ks \in {{"cast", "cases"}, {"cast", "cases", "partial"}} ->
              Form("cast", <<e("cast"), IF IsArr(x("cases")) THEN AllOf(TLCEval([k \in 1..Len(x("cases")[2]) |-> RCase(D, x("cases")[2][k])])) ELSE Not("cases"),
                             IF "partial" \in ks THEN Flag(x("partial")) ELSE Yes(FALSE)>>)
         [] ks = {"upcast", "as"} -> Form("upcast", <<e("upcast"), RType(D, x("as"))>>)
         [] ks = {"ifnotnull", "then"} -> Form("ifnn", <<RNamed(D, x("ifnotnull"), 1), es("then", 1)>>)
         [] ks = {"ifnotnull", "then", "else"} -> Form("ifnnelse", <<RNamed(D, x("ifnotnull"), 1), es("then", 1), es("else", 1)>>)
         [] ks = {"pack"} -> LET r == RPairs(D, x("pack")) IN IF r[1] = "y" /\ r[2] = <<>> THEN Not("empty pack") ELSE IF r[1] = "y" THEN Huh("pack") ELSE r
         [] ks \in {{"unpack", "format", "then"}, {"unpack", "format", "then", "else"}} -> Huh("unpack")
         [] ks = {"doc"} -> LET r == Text(x("doc")) IN IF r[1] = "y" THEN Yes(<<"doc">>) ELSE r
         [] ks = {"error"} -> Form("error", <<Text(x("error")), Yes(<<"n">>)>>)
         [] ks = {"error", "code"} -> Form("error", <<Text(x("error")), IF IsWhole(x("code")) /\ WholeIn(x("code")[2], InInt) /\ (x("code")[2][1] = "I" \/ x("code")[2][2] < 0)
                                                                       THEN Yes(<<"c", x("code")[2][2]>>) ELSE Not("code")>>)
         [] ks \in {{"try"}, {"try", "filter"}} ->
              Form("try", <<es("try", 1),
                IF "filter" \notin ks THEN Yes(<<"all">>)
                ELSE IF ~IsArr(x("filter")) THEN Not("filter")
                ELSE LET r == AllOf(TLCEval([k \in 1..Len(x("filter")[2]) |-> LET f == x("filter")[2][k] IN
                                      IF IsWhole(f) THEN (IF f[2][1] = "i" THEN Yes(<<"c", f[2][2]>>) ELSE Huh("filter")) ELSE LET t == Text(f) IN IF t[1] = "y" THEN Yes(<<"m", t[2]>>) ELSE t]))
                     IN IF r[1] = "y" THEN Yes(<<"some", r[2]>>) ELSE r>>)
         [] ks \in {{"log"}, {"log", "namespace"}} -> Form("log", <<es("log", 0), IF "namespace" \in ks THEN Text(x("namespace")) ELSE Yes("")>>)
         [] ks = {"params", "ret", "do"} -> RFcn(D, j)
         [] ks = {"fcn"} -> LET r == Text(x("fcn")) IN IF r[1] # "y" THEN r ELSE IF IsFcnName(r[2]) THEN Yes(<<"fref", r[2]>>) ELSE Not("function name")
         [] ks = {"fcn", "fill"} ->
              LET r == Text(x("fcn"))
                  f == IF ~IsObj(x("fill")) \/ x("fill")[2] = <<>> THEN Not("fill")
                       ELSE LET rs == AllOf(TLCEval([k \in 1..Len(x("fill")[2]) |-> RArg(D, x("fill")[2][k][2])])) IN
                            IF rs[1] # "y" THEN rs ELSE Yes(TLCEval([k \in 1..Len(x("fill")[2]) |-> <<x("fill")[2][k][1], rs[2][k]>>])) IN
              IF f[1] = "n" THEN f ELSE IF r[1] # "y" THEN r ELSE IF ~IsFcnName(r[2]) THEN Not("function name") ELSE IF f[1] # "y" THEN f ELSE Yes(<<"fill", r[2], f[2]>>)
         [] ks = {"call", "args"} -> Form("callu", <<e("call"), RList(D, x("args"), 0)>>)
         [] Cardinality(ks) = 1 /\ ks \cap FormKeys = {} ->
              LET f == CHOOSE k \in ks : TRUE
                  r == RArgs(D, x(f)) IN
              IF r[1] = "y" THEN Yes(<<"call", f, r[2]>>) ELSE r
         [] OTHER -> Not("no such form")

(***************************************************************************)
(* Whole documents                                                         *)
(***************************************************************************)
TopKeys == {"name", "method", "input", "output", "begin", "action", "end", "fcns", "zero", "merge", "cells", "pools", "randseed", "doc", "version", "metadata", "options"}
RState(D, j, pool) ==   \* a cell or a pool
  IF ~IsObj(j) THEN Not("cell")
  ELSE IF ~({"type"} \subseteq Keys(j)) \/ (~pool /\ "init" \notin Keys(j)) \/ ~(Keys(j) \subseteq {"type", "init", "shared", "rollback", "source"}) THEN Not("cell fields")
  ELSE LET flag(k) == IF k \in Keys(j) THEN Flag(At(j, k)) ELSE Yes(FALSE)
           t == RType(D, At(j, "type"))
           sh == flag("shared")
           rb == flag("rollback")
           src == IF "source" \in Keys(j) THEN (LET s == Text(At(j, "source")) IN IF s = Yes("embedded") THEN s ELSE IF s[1] = "y" THEN Huh("source") ELSE s) ELSE Yes("embedded")
           fl == AllOf(<<sh, rb, src>>) IN
       IF fl[1] = "n" THEN fl
       ELSE IF fl[1] = "y" /\ sh[2] /\ rb[2] THEN Not("shared with rollback")
       ELSE IF pool /\ "init" \in Keys(j) /\ ~IsObj(At(j, "init")) THEN Huh("pool init")
       ELSE IF t[1] # "y" THEN t ELSE IF fl[1] # "y" THEN fl
       ELSE LET v == IF pool THEN (IF "init" \in Keys(j) THEN AllOf(TLCEval([k \in 1..Len(At(j, "init")[2]) |-> RValue(D, At(j, "init")[2][k][2], t[2])])) ELSE Yes(<<>>))
                     ELSE RValue(D, At(j, "init"), t[2]) IN
            IF v[1] # "y" THEN v
            ELSE Yes([t |-> t[2], rb |-> rb[2], shared |-> sh[2],
                      init |-> IF pool THEN (LET ij == IF "init" \in Keys(j) THEN At(j, "init") ELSE <<"jo", <<>>>> IN
                                  TLCEval([n \in Keys(ij) |-> v[2][CHOOSE k \in 1..Len(ij[2]) : ij[2][k][1] = n]])) ELSE v[2]])
RStates(D, j, pool) ==
  IF ~IsObj(j) THEN Not("cells")
  ELSE IF \E n \in Keys(j) : ~IsName(n) THEN Not("cell name")
  ELSE LET rs == AllOf(TLCEval([k \in 1..Len(j[2]) |-> RState(D, j[2][k][2], pool)])) IN
       IF rs[1] # "y" THEN rs ELSE Yes(TLCEval([n \in Keys(j) |-> rs[2][CHOOSE k \in 1..Len(j[2]) : j[2][k][1] = n]]))
RFcns(D, j) ==
  IF ~IsObj(j) THEN Not("fcns")
  ELSE IF \E n \in Keys(j) : ~IsFcnName(n) THEN Not("function name")
  ELSE AllOf(TLCEval([k \in 1..Len(j[2]) |-> LET f == RFcn(D, j[2][k][2]) IN IF f[1] = "y" THEN Yes(<<j[2][k][1], f[2][2], f[2][3], f[2][4]>>) ELSE f]))
RTexts(j) == IF ~IsObj(j) THEN Not("metadata")
             ELSE LET rs == AllOf(TLCEval([k \in 1..Len(j[2]) |-> Text(j[2][k][2])])) IN
                  IF rs[1] # "y" THEN rs ELSE Yes(TLCEval([n \in Keys(j) |-> rs[2][CHOOSE k \in 1..Len(j[2]) : j[2][k][1] = n]]))
RDoc(D, j) ==
  IF ~IsObj(j) THEN Not("document")
  ELSE IF ~(Keys(j) \subseteq TopKeys) THEN Not("top-level field")
  ELSE IF ~({"action", "input", "output"} \subseteq Keys(j)) THEN Not("missing field")
  ELSE
  LET ks == Keys(j)
      x(k) == At(j, k)
      opt(k, r, d) == IF k \in ks THEN r ELSE Yes(d)
      method == IF "method" \in ks THEN (LET m == Text(x("method")) IN IF m[1] = "y" /\ m[2] \notin {"map", "emit", "fold"} THEN Not("method") ELSE m) ELSE Yes("map")
      tin == RType(D, x("input"))
      tout == RType(D, x("output"))
      begin == IF "begin" \in ks THEN RBlock(D, x("begin"), 0) ELSE Yes(<<>>)
      end == IF "end" \in ks THEN RBlock(D, x("end"), 0) ELSE Yes(<<>>)
      action == RBlock(D, x("action"), 1)
      merge == IF "merge" \in ks THEN RBlock(D, x("merge"), 1) ELSE Yes(<<>>)
      fcns == IF "fcns" \in ks THEN RFcns(D, x("fcns")) ELSE Yes(<<>>)
      cells == IF "cells" \in ks THEN RStates(D, x("cells"), FALSE) ELSE Yes(EmptyFn)
      pools == IF "pools" \in ks THEN RStates(D, x("pools"), TRUE) ELSE Yes(EmptyFn)
      name == IF "name" \in ks THEN Text(x("name")) ELSE Yes("")
      doc == IF "doc" \in ks THEN (IF IsStr(x("doc")) THEN Yes("") ELSE Not("doc")) ELSE Yes("")
      seed == IF "randseed" \in ks THEN (IF IsWhole(x("randseed")) /\ WholeIn(x("randseed")[2], InLong) THEN Yes("") ELSE Not("randseed")) ELSE Yes("")
      version == IF "version" \in ks THEN (IF IsWhole(x("version")) /\ WholeIn(x("version")[2], InInt) THEN Yes(x("version")[2]) ELSE Not("version")) ELSE Yes(NULL)
      meta == IF "metadata" \in ks THEN RTexts(x("metadata")) ELSE Yes(EmptyFn)
      options == IF "options" \in ks THEN (IF ~IsObj(x("options")) THEN Not("options") ELSE IF x("options")[2] = <<>> THEN Yes("") ELSE Huh("options")) ELSE Yes("")
      all == AllOf(<<method, begin, end, action, merge, fcns, cells, pools, name, doc, seed, version, meta, options, tin, tout>>)
      fold == method[1] = "y" /\ method[2] = "fold"
      named == method[1] = "y" /\ (IF fold THEN "zero" \notin ks \/ "merge" \notin ks ELSE "zero" \in ks \/ "merge" \in ks)
  IN IF all[1] = "n" THEN all
     ELSE IF named THEN Not("zero and merge")
     ELSE IF all[1] = "?" THEN all
     ELSE LET zero == IF fold THEN RValue(D, x("zero"), tout[2]) ELSE Yes(NULL) IN
     IF zero[1] # "y" THEN zero
     ELSE Yes([D |-> D, name |-> name[2], method |-> method[2], begin |-> begin[2], end |-> end[2], action |-> action[2], merge |-> merge[2], fcns |-> fcns[2],
               cells |-> cells[2], pools |-> pools[2], version |-> version[2], metadata |-> meta[2], zero |-> zero[2]] @@ ("in" :> tin[2]) @@ ("out" :> tout[2]))
=============================================================================
