------------------------------ MODULE PFALang ------------------------------
(***************************************************************************)
(* The PFA language: static semantics (Elab) and dynamic semantics (E).    *)
(*                                                                         *)
(* Expressions are tuples whose first component names the form (the same   *)
(* names the JSON records use, see harness/ir.py).  Elab checks scoping    *)
(* and types, infers the type and annotates library calls with the chosen  *)
(* parameter types; E evaluates an elaborated expression in a store.       *)
(***************************************************************************)
EXTENDS PFALib

(***************************************************************************)
(*                         STATIC SEMANTICS                                *)
(* sc: sequence of scopes, innermost last; a scope is                      *)
(*   [sy : name -> type, above : sealed towards enclosing scopes,          *)
(*    within : no declarations and no assignments inside]                  *)
(* G: [D: type declarations, cells, pools: name -> type,                   *)
(*     fs: function name -> <<param types, ret type, param names>>,        *)
(*     emit: <<>> or <<output type>>]                                      *)
(***************************************************************************)
Scope(above, within) == [sy |-> [x \in {} |-> TNull], above |-> above, within |-> within]
PushSc(sc, above, within) == Append(sc, Scope(above, within))
Visible(sc, n) == \E i \in 1..Len(sc) : n \in DOMAIN sc[i].sy
SymType(sc, n) == LET i == CHOOSE i \in 1..Len(sc) : n \in DOMAIN sc[i].sy /\ \A j \in (i+1)..Len(sc) : n \notin DOMAIN sc[j].sy
                  IN sc[i].sy[n]
RECURSIVE Writable(_, _)
Writable(sc, n) ==
  IF sc = <<>> THEN FALSE
  ELSE LET s == Last(sc) IN
       IF s.within THEN FALSE
       ELSE IF n \in DOMAIN s.sy THEN TRUE
       ELSE IF s.above THEN FALSE
       ELSE Writable(Front(sc), n)
Declare(sc, n, t) == [sc EXCEPT ![Len(sc)].sy = Put(@, n, t)]
RECURSIVE DeclareAll(_, _)
DeclareAll(sc, nts) == IF nts = <<>> THEN sc ELSE DeclareAll(Declare(sc, Head(nts)[1], Head(nts)[2]), Tail(nts))

\* elaboration results
OkE(t, e, sc) == [ok |-> "y", t |-> t, e |-> e, sc |-> sc]
NoE(why) == [ok |-> "n", t |-> TNull, e |-> <<why>>, sc |-> <<>>]
WhatE(why) == [ok |-> "?", t |-> TNull, e |-> <<why>>, sc |-> <<>>]

LibSigs(G, f) ==
  IF f \in DOMAIN G.fs THEN << [params |-> G.fs[f][1], ret |-> G.fs[f][2]] >>
  ELSE IF f = "emit" /\ G.emit # <<>> THEN << [params |-> G.emit, ret |-> TNull] >>
  ELSE IF f \in DOMAIN SIGS THEN SelectSeq(SIGS[f], LAMBDA c : Alive(c, ThisVersion))
  ELSE <<>>
RECURSIVE HasWild(_)
HasWild(p) ==
  CASE p[1] \in {"wild", "wrec", "wenum", "wfixed", "efields"} -> TRUE
    [] p[1] \in {"array", "map"} -> HasWild(p[2])
    [] p[1] = "union" -> \E i \in 1..Len(p[2]) : HasWild(p[2][i])
    [] p[1] = "fcn" -> HasWild(p[3]) \/ \E i \in 1..Len(p[2]) : HasWild(p[2][i])
    [] OTHER -> FALSE
SigWild(s) == HasWild(s.ret) \/ \E i \in 1..Len(s.params) : HasWild(s.params[i])

IsBlockTypeOk(t, want) == t[1] = "exc" \/ Accepts(want, t)

RECURSIVE Elab(_, _, _), ElabSeq(_, _, _), ElabPairs(_, _, _), ElabPath(_, _, _, _), ElabConds(_, _, _), ElabCases(_, _, _), ElabIfnn(_, _, _), ElabUpd(_, _, _, _), ElabBlock(_, _, _, _, _), ElabArg(_, _, _)

\* a sequence of expressions in one scope: result has ts, es
ElabSeq(es, sc, G) ==
  IF es = <<>> THEN [ok |-> "y", ts |-> <<>>, es |-> <<>>, sc |-> sc]
  ELSE LET h == Elab(Head(es), sc, G) IN
       IF h.ok # "y" THEN [ok |-> h.ok, ts |-> <<>>, es |-> h.e, sc |-> sc]
       ELSE LET r == ElabSeq(Tail(es), h.sc, G) IN
            IF r.ok # "y" THEN r
            ELSE [ok |-> "y", ts |-> <<h.t>> \o r.ts, es |-> <<h.e>> \o r.es, sc |-> r.sc]
\* a block: its own scope (with some symbols predeclared)
ElabBlock(es, sc, G, syms, seal) ==
  LET r == ElabSeq(es, DeclareAll(Append(sc, Scope(seal, FALSE)), syms), G)
  IN [ok |-> r.ok, t |-> IF r.ok = "y" THEN Last(r.ts) ELSE TNull, es |-> r.es]
\* named expressions, each in a sealed scope
ElabPairs(ps, sc, G) ==
  IF ps = <<>> THEN [ok |-> "y", ts |-> <<>>, es |-> <<>>]
  ELSE LET h == Elab(Head(ps)[2], PushSc(sc, TRUE, TRUE), G) IN
       IF h.ok # "y" THEN [ok |-> h.ok, ts |-> <<>>, es |-> h.e]
       ELSE LET r == ElabPairs(Tail(ps), sc, G) IN
            IF r.ok # "y" THEN r
            ELSE [ok |-> "y", ts |-> <<h.t>> \o r.ts, es |-> << <<Head(ps)[1], h.e>> >> \o r.es]
\* a path from a value of type t
ElabPath(path, t, sc, G) ==
  IF path = <<>> THEN [ok |-> "y", t |-> t, es |-> <<>>]
  ELSE LET h == Elab(Head(path), PushSc(sc, TRUE, TRUE), G) IN
       IF h.ok # "y" THEN [ok |-> h.ok, t |-> TNull, es |-> h.e]
       ELSE LET step ==
              CASE t[1] = "array" -> IF h.t[1] \in {"int", "long"} THEN <<TRUE, t[2]>> ELSE <<FALSE>>
                [] t[1] = "map"   -> IF h.t[1] = "string" THEN <<TRUE, t[2]>> ELSE <<FALSE>>
                [] t[1] = "rec"   -> IF Head(path)[1] = "str" /\ Head(path)[2] \in FieldNames(G.D, t[2])
                                     THEN <<TRUE, FieldType(G.D, t[2], Head(path)[2])>> ELSE <<FALSE>>
                [] OTHER -> <<FALSE>>
            IN IF ~step[1] THEN [ok |-> "n", t |-> TNull, es |-> <<"path">>]
               ELSE LET r == ElabPath(Tail(path), step[2], sc, G) IN
                    IF r.ok # "y" THEN r ELSE [r EXCEPT !.es = <<h.e>> \o @]
\* the "to" of an update: a value or a function of the addressed type
ElabUpd(to, want, sc, G) ==
  IF to[1] \in {"fref", "fdef", "fill"}
  THEN LET f == ElabArg(to, sc, G) IN
       IF f.ok # "y" THEN f
       ELSE IF Accepts(TFcn(<<want>>, want), f.t) THEN f ELSE NoE("update function type")
  ELSE LET h == Elab(to, sc, G) IN
       IF h.ok # "y" THEN h ELSE IF Accepts(want, h.t) THEN h ELSE NoE("update value type")
\* an argument position: expression or function
ElabArg(e, sc, G) ==
  CASE e[1] = "fref" ->
        LET sg == LibSigs(G, e[2]) IN
        IF sg = <<>> THEN NoE("unknown function")
        ELSE IF Len(sg) # 1 \/ SigWild(sg[1]) THEN NoE("generic reference")
        ELSE OkE(TFcn(sg[1].params, sg[1].ret), e, sc)
    [] e[1] = "fdef" ->
        LET b == ElabBlock(e[4], sc, G, e[2], TRUE) IN
        IF b.ok # "y" THEN [ok |-> b.ok, t |-> TNull, e |-> b.es, sc |-> sc]
        ELSE IF ~IsBlockTypeOk(b.t, e[3]) THEN NoE("function body type")
        ELSE OkE(TFcn(TLCEval([i \in 1..Len(e[2]) |-> e[2][i][2]]), e[3]), <<"fdef", TLCEval([i \in 1..Len(e[2]) |-> e[2][i][1]]), b.es>>, sc)
    [] e[1] = "fill" ->
        LET sg == LibSigs(G, e[2]) IN
        IF sg = <<>> THEN NoE("unknown function")
        ELSE LET a == ElabPairs(e[3], sc, G) IN
             IF a.ok # "y" THEN [ok |-> a.ok, t |-> TNull, e |-> a.es, sc |-> sc]
             ELSE IF e[2] \notin DOMAIN G.fs THEN (IF Len(sg) # 1 \/ SigWild(sg[1]) THEN NoE("generic reference") ELSE WhatE("library fill"))
             ELSE LET pn == G.fs[e[2]][3]
                      filled == {e[3][i][1] : i \in 1..Len(e[3])}
                      rest == SelectSeq(TLCEval([i \in 1..Len(pn) |-> i]), LAMBDA i : pn[i] \notin filled)
                  IN IF ~(filled \subseteq Range(pn)) THEN NoE("fill names")
                     ELSE OkE(TFcn(TLCEval([i \in 1..Len(rest) |-> sg[1].params[rest[i]]]), sg[1].ret),
                              <<"fill", e[2], a.es, pn>>, sc)
    [] OTHER -> Elab(e, sc, G)

ElabConds(cs, sc, G) ==
  IF cs = <<>> THEN [ok |-> "y", ts |-> <<>>, es |-> <<>>]
  ELSE LET p == Elab(Head(cs)[1], PushSc(sc, TRUE, TRUE), G)
           b == ElabBlock(Head(cs)[2], sc, G, <<>>, FALSE)
           r == ElabConds(Tail(cs), sc, G) IN
       IF p.ok # "y" THEN [ok |-> p.ok, ts |-> <<>>, es |-> p.e]
       ELSE IF p.t[1] # "boolean" THEN [ok |-> "n", ts |-> <<>>, es |-> <<"predicate">>]
       ELSE IF b.ok # "y" THEN [ok |-> b.ok, ts |-> <<>>, es |-> b.es]
       ELSE IF r.ok # "y" THEN r
       ELSE [ok |-> "y", ts |-> <<b.t>> \o r.ts, es |-> << <<p.e, b.es>> >> \o r.es]
ElabCases(cs, sc, G) ==
  IF cs = <<>> THEN [ok |-> "y", ts |-> <<>>, es |-> <<>>]
  ELSE LET b == ElabBlock(Head(cs)[3], sc, G, << <<Head(cs)[2], Head(cs)[1]>> >>, FALSE)
           r == ElabCases(Tail(cs), sc, G) IN
       IF b.ok # "y" THEN [ok |-> b.ok, ts |-> <<>>, es |-> b.es]
       ELSE IF r.ok # "y" THEN r
       ELSE [ok |-> "y", ts |-> <<b.t>> \o r.ts, es |-> << <<Head(cs)[1], Head(cs)[2], b.es>> >> \o r.es]
\* the non-null remainder of a union with null
NonNull(t) ==
  IF ~IsUnion(t) THEN <<FALSE>>
  ELSE LET rest == SelectSeq(t[2], LAMBDA x : x[1] # "null") IN
       IF Len(rest) = Len(t[2]) \/ rest = <<>> THEN <<FALSE>>
       ELSE IF Len(rest) = 1 THEN <<TRUE, rest[1]>> ELSE <<TRUE, TUnion(rest)>>
ElabIfnn(ps, sc, G) ==
  LET a == ElabPairs(ps, sc, G) IN
  IF a.ok # "y" THEN a
  ELSE IF \E i \in 1..Len(a.ts) : ~NonNull(a.ts[i])[1] THEN [ok |-> "n", ts |-> <<>>, es |-> <<"ifnotnull">>]
  ELSE [a EXCEPT !.ts = TLCEval([i \in 1..Len(a.ts) |-> NonNull(a.ts[i])[2]])]

Pair2(ns, ts) == TLCEval([i \in 1..Len(ns) |-> <<ns[i][1], ts[i]>>])
BlockRes(t, e, sc) == OkE(t, e, sc)
\* the common type of alternatives; all-exception alternatives are null for if/cond
Alt(ts, e, sc) ==
  IF \A i \in 1..Len(ts) : ts[i][1] = "exc" THEN OkE(TNull, e, sc)
  ELSE LET b == Broadest(ts) IN IF b[1] THEN OkE(b[2], e, sc) ELSE NoE("incompatible alternatives")

Elab(e, sc, G) ==
  LET k == e[1] IN
  CASE k = "null" -> OkE(TNull, <<"k", NULL>>, sc)
    [] k = "bool" -> OkE(TBool, <<"k", B(e[2])>>, sc)
    [] k = "int"  -> OkE(TInt, <<"k", I(e[2])>>, sc)
    [] k = "long" -> OkE(TLong, <<"k", I(e[2])>>, sc)
    [] k = "dbl"  -> OkE(TDouble, <<"k", Norm(e[2], e[3])>>, sc)
    [] k = "flt"  -> OkE(TFloat, <<"k", Norm(e[2], e[3])>>, sc)
    [] k = "str"  -> OkE(TString, <<"k", S(e[2])>>, sc)
    [] k = "lit"  -> OkE(e[2], <<"k", e[3]>>, sc)
    [] k = "doc"  -> OkE(TNull, <<"k", NULL>>, sc)
    [] k = "ref"  -> IF Visible(sc, e[2]) THEN OkE(SymType(sc, e[2]), e, sc) ELSE NoE("unknown symbol")
    [] k = "error" -> OkE(TExc, e, sc)
    [] k = "do" -> LET b == ElabBlock(e[2], sc, G, <<>>, FALSE) IN
                   IF b.ok # "y" THEN [ok |-> b.ok, t |-> TNull, e |-> b.es, sc |-> sc]
                   ELSE OkE(IF b.t[1] = "exc" THEN TNull ELSE b.t, <<"do", b.es>>, sc)
    [] k = "let" ->
        IF Last(sc).within THEN NoE("let in sealed scope")
        ELSE IF \E i \in 1..Len(e[2]) : Visible(sc, e[2][i][1]) THEN NoE("redeclared")
        ELSE LET a == ElabPairs(e[2], sc, G) IN
             IF a.ok # "y" THEN [ok |-> a.ok, t |-> TNull, e |-> a.es, sc |-> sc]
             ELSE IF \E i \in 1..Len(a.ts) : a.ts[i][1] = "exc" THEN NoE("let of exception type")
             ELSE OkE(TNull, <<"let", a.es>>, DeclareAll(sc, Pair2(e[2], a.ts)))
    [] k = "set" ->
        IF \E i \in 1..Len(e[2]) : ~Visible(sc, e[2][i][1]) \/ ~Writable(sc, e[2][i][1]) THEN NoE("not assignable")
        ELSE LET a == ElabPairs(e[2], sc, G) IN
             IF a.ok # "y" THEN [ok |-> a.ok, t |-> TNull, e |-> a.es, sc |-> sc]
             ELSE IF \E i \in 1..Len(a.ts) : ~Accepts(SymType(sc, e[2][i][1]), a.ts[i]) THEN NoE("assigned type")
             ELSE OkE(TNull, <<"set", a.es>>, sc)
    [] k = "call" ->
        LET sg == LibSigs(G, e[2]) IN
        IF sg = <<>> THEN (IF e[2] \in KNOWN THEN WhatE("unmodelled function") ELSE NoE("unknown function"))
        ELSE LET as == TLCEval([i \in 1..Len(e[3]) |-> ElabArg(e[3][i], PushSc(sc, TRUE, TRUE), G)])
                 bad == {i \in 1..Len(as) : as[i].ok # "y"} IN
             IF bad # {} THEN as[CHOOSE i \in bad : \A j \in bad : i <= j]
             ELSE LET r == SigsAccept(G.D, sg, TLCEval([i \in 1..Len(as) |-> as[i].t])) IN
                  IF ~r[1] THEN NoE("no signature fits")
                  ELSE OkE(r[3], <<"call", e[2], TLCEval([i \in 1..Len(as) |-> as[i].e]), r[2], r[3]>>, sc)
    [] k = "callu" ->
        LET n == Elab(e[2], PushSc(sc, TRUE, TRUE), G) IN
        IF n.ok # "y" THEN n
        ELSE IF n.t[1] # "enum" THEN NoE("call name is not an enum")
        ELSE LET as == TLCEval([i \in 1..Len(e[3]) |-> Elab(e[3][i], PushSc(sc, TRUE, TRUE), G)])
                 bad == {i \in 1..Len(as) : as[i].ok # "y"}
                 syms == G.D[n.t[2]].syms IN
             IF bad # {} THEN as[CHOOSE i \in bad : \A j \in bad : i <= j]
             ELSE IF \E i \in 1..Len(syms) : ("u." \o syms[i]) \notin DOMAIN G.fs THEN NoE("unknown function in enum")
             ELSE LET rs == TLCEval([i \in 1..Len(syms) |-> SigsAccept(G.D, LibSigs(G, "u." \o syms[i]), TLCEval([j \in 1..Len(as) |-> as[j].t]))]) IN
                  IF \E i \in 1..Len(rs) : ~rs[i][1] THEN NoE("no signature fits")
                  ELSE LET b == Broadest(TLCEval([i \in 1..Len(rs) |-> rs[i][3]])) IN
                       IF b[1] THEN OkE(b[2], <<"callu", n.e, TLCEval([i \in 1..Len(as) |-> as[i].e]), syms>>, sc) ELSE NoE("incompatible results")
    [] k = "newrec" ->
        LET a == ElabPairs(e[3], sc, G) IN
        IF a.ok # "y" THEN [ok |-> a.ok, t |-> TNull, e |-> a.es, sc |-> sc]
        ELSE IF e[2][1] # "rec" THEN NoE("new")
        ELSE IF {e[3][i][1] : i \in 1..Len(e[3])} # FieldNames(G.D, e[2][2]) THEN NoE("record fields")
        ELSE IF \E i \in 1..Len(a.ts) : ~Accepts(FieldType(G.D, e[2][2], e[3][i][1]), a.ts[i]) THEN NoE("field type")
        ELSE OkE(e[2], <<"newmap", a.es>>, sc)
    [] k = "newmap" ->
        LET a == ElabPairs(e[3], sc, G) IN
        IF a.ok # "y" THEN [ok |-> a.ok, t |-> TNull, e |-> a.es, sc |-> sc]
        ELSE IF e[2][1] # "map" THEN NoE("new")
        ELSE IF \E i \in 1..Len(a.ts) : ~Accepts(e[2][2], a.ts[i]) THEN NoE("value type")
        ELSE OkE(e[2], <<"newmap", a.es>>, sc)
    [] k = "newarr" ->
        LET a == ElabPairs(TLCEval([i \in 1..Len(e[3]) |-> <<"", e[3][i]>>]), sc, G) IN
        IF a.ok # "y" THEN [ok |-> a.ok, t |-> TNull, e |-> a.es, sc |-> sc]
        ELSE IF e[2][1] # "array" THEN NoE("new")
        ELSE IF \E i \in 1..Len(a.ts) : ~Accepts(e[2][2], a.ts[i]) THEN NoE("item type")
        ELSE OkE(e[2], <<"newarr", TLCEval([i \in 1..Len(a.es) |-> a.es[i][2]])>>, sc)
    [] k = "attr" ->
        LET x == Elab(e[2], PushSc(sc, TRUE, TRUE), G) IN
        IF x.ok # "y" THEN x
        ELSE IF x.t[1] \notin {"array", "map", "rec"} THEN NoE("attr of a scalar")
        ELSE LET p == ElabPath(e[3], x.t, sc, G) IN
             IF p.ok # "y" THEN [ok |-> p.ok, t |-> TNull, e |-> p.es, sc |-> sc]
             ELSE OkE(p.t, <<"attr", x.e, p.es, x.t>>, sc)
    [] k = "attrto" ->
        LET x == Elab(e[2], PushSc(sc, TRUE, TRUE), G) IN
        IF x.ok # "y" THEN x
        ELSE IF x.t[1] \notin {"array", "map", "rec"} THEN NoE("attr of a scalar")
        ELSE LET p == ElabPath(e[3], x.t, sc, G) IN
             IF p.ok # "y" THEN [ok |-> p.ok, t |-> TNull, e |-> p.es, sc |-> sc]
             ELSE LET u == ElabUpd(e[4], p.t, sc, G) IN
                  IF u.ok # "y" THEN u ELSE OkE(x.t, <<"attrto", x.e, p.es, u.e, x.t>>, u.sc)
    [] k \in {"cell", "cellto"} ->
        IF e[2] \notin DOMAIN G.cells THEN NoE("unknown cell")
        ELSE LET p == ElabPath(e[3], G.cells[e[2]], sc, G) IN
             IF p.ok # "y" THEN [ok |-> p.ok, t |-> TNull, e |-> p.es, sc |-> sc]
             ELSE IF k = "cell" THEN OkE(p.t, <<"cell", e[2], p.es, G.cells[e[2]]>>, sc)
             ELSE LET u == ElabUpd(e[4], p.t, sc, G) IN
                  IF u.ok # "y" THEN u ELSE OkE(G.cells[e[2]], <<"cellto", e[2], p.es, u.e, G.cells[e[2]]>>, u.sc)
    [] k \in {"pool", "poolto"} ->
        IF e[2] \notin DOMAIN G.pools THEN NoE("unknown pool")
        ELSE LET p == ElabPath(e[3], TMap(G.pools[e[2]]), sc, G) IN
             IF p.ok # "y" THEN [ok |-> p.ok, t |-> TNull, e |-> p.es, sc |-> sc]
             ELSE IF k = "pool" THEN OkE(p.t, <<"pool", e[2], p.es, TMap(G.pools[e[2]])>>, sc)
             ELSE LET u == ElabUpd(e[4], p.t, sc, G) IN
                  IF u.ok # "y" THEN u
                  ELSE LET n == Elab(e[5], u.sc, G) IN
                       IF n.ok # "y" THEN n
                       ELSE IF ~Accepts(G.pools[e[2]], n.t) THEN NoE("init type")
                       ELSE OkE(G.pools[e[2]], <<"poolto", e[2], p.es, u.e, n.e, G.pools[e[2]]>>, n.sc)
    [] k = "pooldel" ->
        IF e[2] \notin DOMAIN G.pools THEN NoE("unknown pool")
        ELSE LET x == Elab(e[3], sc, G) IN
             IF x.ok # "y" THEN x
             ELSE IF x.t[1] # "string" THEN NoE("pool-del name") ELSE OkE(TNull, <<"pooldel", e[2], x.e>>, x.sc)
    [] k = "if" ->
        LET c == ElabConds(<< <<e[2], e[3]>> >>, sc, G) IN
        IF c.ok # "y" THEN [ok |-> c.ok, t |-> TNull, e |-> c.es, sc |-> sc]
        ELSE OkE(TNull, <<"cond", c.es>>, sc)
    [] k = "ifelse" ->
        LET c == ElabConds(<< <<e[2], e[3]>> >>, sc, G)
            b == ElabBlock(e[4], sc, G, <<>>, FALSE) IN
        IF c.ok # "y" THEN [ok |-> c.ok, t |-> TNull, e |-> c.es, sc |-> sc]
        ELSE IF b.ok # "y" THEN [ok |-> b.ok, t |-> TNull, e |-> b.es, sc |-> sc]
        ELSE Alt(c.ts \o <<b.t>>, <<"condelse", c.es, b.es>>, sc)
    [] k = "cond" ->
        LET c == ElabConds(e[2], sc, G) IN
        IF c.ok # "y" THEN [ok |-> c.ok, t |-> TNull, e |-> c.es, sc |-> sc]
        ELSE OkE(TNull, <<"cond", c.es>>, sc)
    [] k = "condelse" ->
        LET c == ElabConds(e[2], sc, G)
            b == ElabBlock(e[3], sc, G, <<>>, FALSE) IN
        IF c.ok # "y" THEN [ok |-> c.ok, t |-> TNull, e |-> c.es, sc |-> sc]
        ELSE IF b.ok # "y" THEN [ok |-> b.ok, t |-> TNull, e |-> b.es, sc |-> sc]
        ELSE Alt(c.ts \o <<b.t>>, <<"condelse", c.es, b.es>>, sc)
    [] k = "while" ->
        LET s1 == PushSc(sc, FALSE, FALSE)
            p == Elab(e[2], PushSc(s1, TRUE, TRUE), G)
            b == ElabSeq(e[3], s1, G) IN
        IF p.ok # "y" THEN p
        ELSE IF p.t[1] # "boolean" THEN NoE("predicate")
        ELSE IF b.ok # "y" THEN [ok |-> b.ok, t |-> TNull, e |-> b.es, sc |-> sc]
        ELSE OkE(TNull, <<"while", p.e, b.es>>, sc)
    [] k = "until" ->
        LET s1 == PushSc(sc, FALSE, FALSE)
            b == ElabSeq(e[2], s1, G) IN
        IF b.ok # "y" THEN [ok |-> b.ok, t |-> TNull, e |-> b.es, sc |-> sc]
        ELSE LET p == Elab(e[3], PushSc(b.sc, TRUE, TRUE), G) IN
             IF p.ok # "y" THEN p
             ELSE IF p.t[1] # "boolean" THEN NoE("predicate")
             ELSE OkE(TNull, <<"until", b.es, p.e>>, sc)
    [] k = "for" ->
        LET s1 == PushSc(sc, FALSE, FALSE) IN
        IF \E i \in 1..Len(e[2]) : Visible(sc, e[2][i][1]) THEN NoE("redeclared")
        ELSE LET a == ElabPairs(e[2], s1, G) IN
        IF a.ok # "y" THEN [ok |-> a.ok, t |-> TNull, e |-> a.es, sc |-> sc]
        ELSE LET s2 == DeclareAll(s1, Pair2(e[2], a.ts))
                 p == Elab(e[3], PushSc(s2, TRUE, TRUE), G) IN
        IF p.ok # "y" THEN p
        ELSE IF p.t[1] # "boolean" THEN NoE("predicate")
        ELSE IF \E i \in 1..Len(e[4]) : ~Visible(s2, e[4][i][1]) \/ ~Writable(s2, e[4][i][1]) THEN NoE("not assignable")
        ELSE LET s == ElabPairs(e[4], s2, G) IN
        IF s.ok # "y" THEN [ok |-> s.ok, t |-> TNull, e |-> s.es, sc |-> sc]
        ELSE IF \E i \in 1..Len(s.ts) : ~Accepts(SymType(s2, e[4][i][1]), s.ts[i]) THEN NoE("assigned type")
        ELSE LET b == ElabSeq(e[5], PushSc(s2, FALSE, FALSE), G) IN
        IF b.ok # "y" THEN [ok |-> b.ok, t |-> TNull, e |-> b.es, sc |-> sc]
        ELSE OkE(TNull, <<"for", a.es, p.e, s.es, b.es>>, sc)
    [] k = "foreach" ->
        IF Visible(sc, e[2]) THEN NoE("redeclared")
        ELSE LET s1 == PushSc(sc, ~e[5], FALSE)
                 x == Elab(e[3], PushSc(s1, TRUE, TRUE), G) IN
        IF x.ok # "y" THEN x
        ELSE IF x.t[1] # "array" THEN NoE("foreach over a non-array")
        ELSE LET b == ElabSeq(e[4], PushSc(Declare(s1, e[2], x.t[2]), FALSE, FALSE), G) IN
        IF b.ok # "y" THEN [ok |-> b.ok, t |-> TNull, e |-> b.es, sc |-> sc]
        ELSE OkE(TNull, <<"foreach", e[2], x.e, b.es>>, sc)
    [] k = "forkv" ->
        IF Visible(sc, e[2]) \/ Visible(sc, e[3]) THEN NoE("redeclared")
        ELSE LET s1 == PushSc(sc, FALSE, FALSE)
                 x == Elab(e[4], PushSc(s1, TRUE, TRUE), G) IN
        IF x.ok # "y" THEN x
        ELSE IF x.t[1] # "map" THEN NoE("forkeyval over a non-map")
        ELSE LET b == ElabSeq(e[5], PushSc(Declare(Declare(s1, e[2], TString), e[3], x.t[2]), FALSE, FALSE), G) IN
        IF b.ok # "y" THEN [ok |-> b.ok, t |-> TNull, e |-> b.es, sc |-> sc]
        ELSE OkE(TNull, <<"forkv", e[2], e[3], x.e, b.es>>, sc)
    [] k = "cast" ->
        LET x == Elab(e[2], PushSc(sc, TRUE, TRUE), G) IN
        IF x.ok # "y" THEN x
        ELSE IF \E i \in 1..Len(e[3]) : ~Accepts(x.t, e[3][i][1]) THEN NoE("impossible case")
        ELSE LET c == ElabCases(e[3], sc, G) IN
        IF c.ok # "y" THEN [ok |-> c.ok, t |-> TNull, e |-> c.es, sc |-> sc]
        ELSE IF e[4] THEN OkE(TNull, <<"cast", x.e, x.t, c.es, TRUE>>, sc)
        ELSE IF \E i \in 1..Len(UTypes(x.t)) : \A j \in 1..Len(e[3]) :
                   ~(Accepts(e[3][j][1], UTypes(x.t)[i]) /\ Accepts(UTypes(x.t)[i], e[3][j][1])) THEN NoE("missing case")
        ELSE IF \A i \in 1..Len(c.ts) : c.ts[i][1] = "exc" THEN WhatE("all cases fail")
        ELSE Alt(c.ts, <<"cast", x.e, x.t, c.es, FALSE>>, sc)
    [] k = "upcast" ->
        LET x == Elab(e[2], PushSc(sc, TRUE, TRUE), G) IN
        IF x.ok # "y" THEN x
        ELSE IF ~Accepts(e[3], x.t) THEN NoE("upcast") ELSE OkE(e[3], x.e, sc)
    [] k \in {"ifnn", "ifnnelse"} ->
        LET a == ElabIfnn(e[2], sc, G) IN
        IF a.ok # "y" THEN [ok |-> a.ok, t |-> TNull, e |-> a.es, sc |-> sc]
        ELSE LET s1 == DeclareAll(PushSc(sc, FALSE, FALSE), Pair2(e[2], a.ts))
                 b == ElabSeq(e[3], PushSc(s1, FALSE, FALSE), G) IN
        IF b.ok # "y" THEN [ok |-> b.ok, t |-> TNull, e |-> b.es, sc |-> sc]
        ELSE IF k = "ifnn" THEN OkE(TNull, <<"ifnn", a.es, b.es>>, sc)
        ELSE LET c == ElabBlock(e[4], sc, G, <<>>, FALSE) IN
        IF c.ok # "y" THEN [ok |-> c.ok, t |-> TNull, e |-> c.es, sc |-> sc]
        ELSE IF c.t[1] = "exc" /\ Last(b.ts)[1] = "exc" THEN WhatE("both branches fail")
        ELSE Alt(<<Last(b.ts), c.t>>, <<"ifnnelse", a.es, b.es, c.es>>, sc)
    [] k = "try" ->
        LET b == ElabSeq(e[2], PushSc(sc, TRUE, TRUE), G) IN
        IF b.ok # "y" THEN [ok |-> b.ok, t |-> TNull, e |-> b.es, sc |-> sc]
        ELSE LET t == Last(b.ts)
                 rt == IF t[1] = "exc" \/ t[1] = "null" THEN TNull
                       ELSE IF IsUnion(t) THEN (IF \E i \in 1..Len(t[2]) : t[2][i][1] = "null" THEN t ELSE TUnion(Append(t[2], TNull)))
                       ELSE TUnion(<<t, TNull>>)
             IN OkE(rt, <<"try", b.es, e[3]>>, sc)
    [] k = "log" ->
        LET b == ElabSeq(e[2], PushSc(sc, TRUE, TRUE), G) IN
        IF b.ok # "y" THEN [ok |-> b.ok, t |-> TNull, e |-> b.es, sc |-> sc]
        ELSE OkE(TNull, <<"log", b.es, e[3]>>, sc)
    [] OTHER -> WhatE("unmodelled form")

(***************************************************************************)
(*                         DYNAMIC SEMANTICS                               *)
(* st: [env: sequence of frames (innermost last) of the current function   *)
(*      activation, cells, pools: name -> value, out: emitted values,      *)
(*      log: logged values, n: loop/call fuel]                             *)
(* Results: <<"v", value, st>> or <<"e", error, st>>, error being          *)
(*   <<"rt", code>>  <<"user", msg, code>>  <<"poison">> (spec gives up)   *)
(* G: [D, fs: name -> <<param names, elaborated body>>]                    *)
(***************************************************************************)
Val(v, st) == <<"v", v, st>>
Err(err, st) == <<"e", err, st>>
GiveUp(st) == <<"e", <<"poison">>, st>>
EnvGet(env, n) == LET i == CHOOSE i \in 1..Len(env) : n \in DOMAIN env[i] /\ \A j \in (i+1)..Len(env) : n \notin DOMAIN env[j] IN env[i][n]
EnvHas(env, n) == \E i \in 1..Len(env) : n \in DOMAIN env[i]
EnvSet(env, n, v) == LET i == CHOOSE i \in 1..Len(env) : n \in DOMAIN env[i] /\ \A j \in (i+1)..Len(env) : n \notin DOMAIN env[j]
                     IN [env EXCEPT ![i][n] = v]
RECURSIVE EnvSetAll(_, _, _)
EnvSetAll(env, ns, vs) == IF ns = <<>> THEN env ELSE EnvSetAll(EnvSet(env, Head(ns), Head(vs)), Tail(ns), Tail(vs))
BindFrame(ns, vs) == TLCEval([n \in Range(ns) |-> vs[CHOOSE i \in 1..Len(ns) : ns[i] = n]])
PushFr(st, f) == [st EXCEPT !.env = Append(@, f)]
PopFr(st) == [st EXCEPT !.env = Front(@)]
BindTop(st, ns, vs) == [st EXCEPT !.env[Len(st.env)] = TLCEval([n \in DOMAIN @ \cup Range(ns) |->
                           IF n \in Range(ns) THEN vs[CHOOSE i \in 1..Len(ns) : ns[i] = n] ELSE @[n]])]
Names(ps) == TLCEval([i \in 1..Len(ps) |-> ps[i][1]])
Exprs(ps) == TLCEval([i \in 1..Len(ps) |-> ps[i][2]])

\* path access: value at path, or <<"e", "array"|"map">>
RECURSIVE PathGet(_, _)
PathGet(v, path) ==
  IF path = <<>> THEN <<"v", v>>
  ELSE LET h == Head(path) IN
       IF v[1] = "a" THEN
          IF h[1] # "i" THEN <<"e", "?">>
          ELSE IF h[2] >= 0 /\ h[2] < Len(v[2]) THEN PathGet(v[2][h[2]+1], Tail(path)) ELSE <<"e", "array">>
       ELSE IF v[1] = "m" THEN IF h[2] \in DOMAIN v[2] THEN PathGet(v[2][h[2]], Tail(path)) ELSE <<"e", "map">>
       ELSE <<"e", "?">>
\* the same value with the element at the path replaced; the path must exist
RECURSIVE PathPut(_, _, _)
PathPut(v, path, x) ==
  IF path = <<>> THEN x
  ELSE LET h == Head(path) IN
       IF v[1] = "a" THEN <<"a", [v[2] EXCEPT ![h[2]+1] = PathPut(@, Tail(path), x)]>>
       ELSE <<"m", IF h[2] \in DOMAIN v[2] THEN [v[2] EXCEPT ![h[2]] = PathPut(@, Tail(path), x)] ELSE Put(v[2], h[2], x)>>

Matches(err, flt) ==   \* does a try with this filter catch this error?
  IF err[1] = "poison" THEN FALSE
  ELSE IF flt[1] = "all" THEN TRUE
  ELSE \E i \in 1..Len(flt[2]) :
         LET f == flt[2][i] IN
         \/ f[1] = "c" /\ err[1] = "rt" /\ f[2] = err[2]
         \/ f[1] = "c" /\ err[1] = "user" /\ err[3] = <<"c", f[2]>>
         \/ f[1] = "m" /\ err[1] = "user" /\ f[2] = err[2]
         \/ f[1] = "m" /\ err[1] = "rt" /\ RTMSG(err[2]) = f[2]

\* does a (tag-erased) value belong to type t when it was produced at static type xt?
CaseMatches(D, v, xt, t) ==
  LET ut == UTypes(xt)
      br == {i \in 1..Len(ut) : Conforms(D, v, ut[i])} IN
  IF br = {} THEN {FALSE}
  ELSE {Accepts(t, ut[i]) : i \in br}

RECURSIVE E(_, _, _), ESeq(_, _, _), EBlock(_, _, _), EList(_, _, _, _), ECond(_, _, _), EWhile(_, _, _, _), EUntil(_, _, _, _), EForL(_, _, _, _, _), EEach(_, _, _, _, _), EEachKV(_, _, _, _, _, _, _), CallF(_, _, _, _), CallUser(_, _, _, _), EFill(_, _, _, _, _, _, _), Update(_, _, _, _, _, _, _), Hof(_, _, _, _, _, _), CallAll(_, _, _, _, _), CallUntil(_, _, _, _, _), CallFold(_, _, _, _, _, _), SortBy(_, _, _, _), InsertBy(_, _, _, _, _), ArgVals(_, _, _, _), SortHighBy(_, _, _, _), InsertHighBy(_, _, _, _, _), HofMap(_, _, _, _)

\* last value of a non-empty sequence of expressions
ESeq(es, st, G) ==
  LET r == E(Head(es), st, G) IN
  IF r[1] = "e" \/ Len(es) = 1 THEN r ELSE ESeq(Tail(es), r[3], G)
EBlock(es, st, G) ==
  LET r == ESeq(es, PushFr(st, EmptyFn), G) IN <<r[1], r[2], PopFr(r[3])>>
\* all values of a sequence: <<"v", <<vals>>, st>>
EList(es, acc, st, G) ==
  IF es = <<>> THEN <<"v", acc, st>>
  ELSE LET r == E(Head(es), st, G) IN
       IF r[1] = "e" THEN r ELSE EList(Tail(es), Append(acc, r[2]), r[3], G)
\* arguments: function arguments are kept as they are
ArgVals(es, acc, st, G) ==
  IF es = <<>> THEN <<"v", acc, st>>
  ELSE IF Head(es)[1] \in {"fref", "fdef", "fill"} THEN ArgVals(Tail(es), Append(acc, <<"fn", Head(es)>>), st, G)
  ELSE LET r == E(Head(es), st, G) IN
       IF r[1] = "e" THEN r ELSE ArgVals(Tail(es), Append(acc, r[2]), r[3], G)
\* first true predicate's block: <<"v", <<TRUE, value>>|<<FALSE>>, st>>
ECond(cs, st, G) ==
  IF cs = <<>> THEN <<"v", <<FALSE, NULL>>, st>>
  ELSE LET p == E(Head(cs)[1], st, G) IN
       IF p[1] = "e" THEN p
       ELSE IF p[2] = TRUEV THEN LET b == EBlock(Head(cs)[2], p[3], G) IN IF b[1] = "e" THEN b ELSE <<"v", <<TRUE, b[2]>>, b[3]>>
       ELSE ECond(Tail(cs), p[3], G)
\* loops; the loop's own frame(s) are already pushed
Burn(st) == [st EXCEPT !.n = @ - 1]
EWhile(p, b, st, G) ==
  IF st.n <= 0 THEN GiveUp(st)
  ELSE LET r == E(p, st, G) IN
       IF r[1] = "e" \/ r[2] # TRUEV THEN r
       ELSE LET x == ESeq(b, Burn(r[3]), G) IN IF x[1] = "e" THEN x ELSE EWhile(p, b, x[3], G)
EUntil(b, p, st, G) ==
  IF st.n <= 0 THEN GiveUp(st)
  ELSE LET x == ESeq(b, Burn(st), G) IN
       IF x[1] = "e" THEN x
       ELSE LET r == E(p, x[3], G) IN
            IF r[1] = "e" \/ r[2] = TRUEV THEN r ELSE EUntil(b, p, r[3], G)
EForL(p, s, b, st, G) ==
  IF st.n <= 0 THEN GiveUp(st)
  ELSE LET r == E(p, st, G) IN
       IF r[1] = "e" \/ r[2] # TRUEV THEN r
       ELSE LET x == EBlock(b, Burn(r[3]), G) IN
            IF x[1] = "e" THEN x
            ELSE LET y == EList(Exprs(s), <<>>, x[3], G) IN
                 IF y[1] = "e" THEN y
                 ELSE EForL(p, s, b, [y[3] EXCEPT !.env = EnvSetAll(@, Names(s), y[2])], G)
EEach(n, vs, b, st, G) ==
  IF vs = <<>> THEN Val(NULL, st)
  ELSE IF st.n <= 0 THEN GiveUp(st)
  ELSE LET x == EBlock(b, BindTop(Burn(st), <<n>>, <<Head(vs)>>), G) IN
       IF x[1] = "e" THEN x ELSE EEach(n, Tail(vs), b, x[3], G)
EEachKV(kn, vn, ks, m, b, st, G) ==
  IF ks = <<>> THEN Val(NULL, st)
  ELSE IF st.n <= 0 THEN GiveUp(st)
  ELSE LET x == EBlock(b, BindTop(Burn(st), <<kn, vn>>, <<S(Head(ks)), m[Head(ks)]>>), G) IN
       IF x[1] = "e" THEN x ELSE EEachKV(kn, vn, Tail(ks), m, b, x[3], G)

CallUser(f, args, st, G) ==
  IF st.n <= 0 THEN GiveUp(st)
  ELSE LET fr == BindFrame(G.fs[f][1], args)
           r == ESeq(G.fs[f][2], [Burn(st) EXCEPT !.env = <<fr>>], G)
       IN <<r[1], r[2], [r[3] EXCEPT !.env = st.env]>>
\* evaluate the parameters of a partially applied function in parameter order
EFill(pn, filled, rest, acc, st, G, f) ==
  IF pn = <<>> THEN CallUser(f, acc, st, G)
  ELSE LET i == SeqIndex(Names(filled), Head(pn)) IN
       IF i = 0 THEN EFill(Tail(pn), filled, Tail(rest), Append(acc, Head(rest)), st, G, f)
       ELSE LET r == E(filled[i][2], st, G) IN
            IF r[1] = "e" THEN r ELSE EFill(Tail(pn), filled, rest, Append(acc, r[2]), r[3], G, f)
CallF(f, args, st, G) ==
  CASE f[1] = "fdef" ->
        LET r == ESeq(f[3], PushFr(st, BindFrame(f[2], args)), G) IN <<r[1], r[2], PopFr(r[3])>>
    [] f[1] = "fill" -> EFill(f[4], f[3], args, <<>>, st, G, f[2])
    [] f[1] = "fref" ->
        IF f[2] \in DOMAIN G.fs THEN CallUser(f[2], args, st, G)
        ELSE IF f[2] = "emit" THEN Val(NULL, [st EXCEPT !.out = Append(@, args[1])])
        ELSE LET sg == SIGS[f[2]][1]
                 r == Lib(G.D, f[2], sg.params, sg.ret, args) IN
             IF r[1] = "v" THEN (IF Poisoned(r[2]) THEN GiveUp(st) ELSE Val(r[2], st))
             ELSE IF r[1] = "rt" THEN Err(r, st) ELSE GiveUp(st)

\* the new value of obj with its element at path updated by to (a value or a function)
Update(obj, path, to, toval, codes, st, G) ==
  LET old == PathGet(obj, path) IN
  IF old[1] = "e" THEN (IF old[2] = "?" THEN GiveUp(st) ELSE Err(<<"rt", IF old[2] = "array" THEN codes[1] ELSE codes[2]>>, st))
  ELSE IF to[1] \in {"fref", "fdef", "fill"}
       THEN LET r == CallF(to, <<old[2]>>, st, G) IN
            IF r[1] = "e" THEN r ELSE Val(PathPut(obj, path, r[2]), r[3])
       ELSE Val(PathPut(obj, path, toval), st)

\* call f on each argument list: <<"v", <<results>>, st>>
CallAll(f, argss, acc, st, G) ==
  IF argss = <<>> THEN <<"v", acc, st>>
  ELSE LET r == CallF(f, Head(argss), st, G) IN
       IF r[1] = "e" THEN r ELSE CallAll(f, Tail(argss), Append(acc, r[2]), r[3], G)
\* call f until it yields stop: <<"v", number of calls that did not, st>>
CallUntil(f, argss, stop, st, G) ==
  IF argss = <<>> THEN <<"v", 0, st>>
  ELSE LET r == CallF(f, Head(argss), st, G) IN
       IF r[1] = "e" THEN r
       ELSE IF r[2] = stop THEN <<"v", 0, r[3]>>
       ELSE LET x == CallUntil(f, Tail(argss), stop, r[3], G) IN
            IF x[1] = "e" THEN x ELSE <<"v", x[2] + 1, x[3]>>
\* acc := f(acc, x) (or f(x, acc) when flip)
CallFold(f, acc, xs, flip, st, G) ==
  IF xs = <<>> THEN Val(acc, st)
  ELSE LET r == CallF(f, IF flip THEN <<Head(xs), acc>> ELSE <<acc, Head(xs)>>, st, G) IN
       IF r[1] = "e" THEN r ELSE CallFold(f, r[2], Tail(xs), flip, r[3], G)
\* stable insertion sort of indexed items <<i, x>> by a less-than function: <<"v", sorted, st>>
InsertBy(f, sorted, x, st, G) ==
  IF sorted = <<>> THEN <<"v", <<x>>, st>>
  ELSE LET r == CallF(f, <<x[2], Head(sorted)[2]>>, st, G) IN
       IF r[1] = "e" THEN r
       ELSE IF r[2] = TRUEV THEN <<"v", <<x>> \o sorted, r[3]>>
       ELSE LET y == InsertBy(f, Tail(sorted), x, r[3], G) IN
            IF y[1] = "e" THEN y ELSE <<"v", <<Head(sorted)>> \o y[2], y[3]>>
SortBy(f, xs, st, G) ==
  IF xs = <<>> THEN <<"v", <<>>, st>>
  ELSE LET r == SortBy(f, Front(xs), st, G) IN
       IF r[1] = "e" THEN r ELSE InsertBy(f, r[2], Last(xs), r[3], G)

(***************************************************************************)
(* Library functions that call back.                                       *)
(***************************************************************************)
One(s) == TLCEval([i \in 1..Len(s) |-> <<s[i]>>])
WithIdx(s) == TLCEval([i \in 1..Len(s) |-> <<I(i-1), s[i]>>])
Idx(s) == TLCEval([i \in 1..Len(s) |-> <<i, s[i]>>])
KeysOf(m) == SortedKeys(m)
Sel(s, bs) == LET js == SelectSeq(TLCEval([i \in 1..Len(s) |-> i]), LAMBDA i : bs[i] = TRUEV) IN TLCEval([j \in 1..Len(js) |-> s[js[j]]])
Sum01(bs) == Cardinality({i \in 1..Len(bs) : bs[i] = TRUEV})
ZipArgs(as, n, idx) == TLCEval([i \in 1..n |-> (IF idx THEN <<I(i-1)>> ELSE <<>>) \o TLCEval([j \in 1..Len(as) |-> as[j][2][i]])])
Mapped(r, P(_)) == IF r[1] = "e" THEN r ELSE LET v == P(r[2]) IN IF Poisoned(v) THEN GiveUp(r[3]) ELSE Val(v, r[3])
SeqUpTo(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
\* the same in descending order: x goes before the first element that is less than x
InsertHighBy(f, sorted, y, s, G) ==
  IF sorted = <<>> THEN <<"v", <<y>>, s>>
  ELSE LET r == CallF(f, <<Head(sorted)[2], y[2]>>, s, G) IN
       IF r[1] = "e" THEN r
       ELSE IF r[2] = TRUEV THEN <<"v", <<y>> \o sorted, r[3]>>
       ELSE LET z == InsertHighBy(f, Tail(sorted), y, r[3], G) IN IF z[1] = "e" THEN z ELSE <<"v", <<Head(sorted)>> \o z[2], z[3]>>
SortHighBy(f, xs, s, G) ==
  IF xs = <<>> THEN <<"v", <<>>, s>>
  ELSE LET r == SortHighBy(f, Front(xs), s, G) IN IF r[1] = "e" THEN r ELSE InsertHighBy(f, r[2], Last(xs), r[3], G)

\* Maps have no order: what a callback does must not depend on the order of the keys
\* (all orders are tried; when they disagree the specification does not say).
RECURSIVE PermSeqs(_)
PermSeqs(ks) == IF ks = {} THEN {<<>>} ELSE UNION {{<<k>> \o p : p \in PermSeqs(ks \ {k})} : k \in ks}
AllOrders(ks, Op(_), st) ==
  IF Cardinality(ks) > 4 THEN GiveUp(st)
  ELSE LET rs == {Op(p) : p \in PermSeqs(ks)} IN
       IF Cardinality(rs) = 1 THEN CHOOSE r \in rs : TRUE ELSE GiveUp(st)
HofMap(f, a, st, G) ==
  LET F == Last(a)[2]
      m == a[1][2]
      ks == DOMAIN m
      ms == SubSeq(a, 1, Len(a)-1)
      withKey == f \in {"map.mapWithKey", "map.filterWithKey", "map.filterMapWithKey", "map.flatMapWithKey", "map.zipmapWithKey", "map.correspondsWithKey"}
      ArgsOf(ps) == TLCEval([i \in 1..Len(ps) |-> (IF withKey THEN <<S(ps[i])>> ELSE <<>>) \o TLCEval([j \in 1..Len(ms) |-> ms[j][2][ps[i]]])])
      \* result of calling F on every key, as a function of the key
      Each(P(_)) == AllOrders(ks, LAMBDA ps : Mapped(CallAll(F, ArgsOf(ps), <<>>, st, G),
                                              LAMBDA r : P(TLCEval([k \in ks |-> r[CHOOSE i \in 1..Len(ps) : ps[i] = k]]))), st)
      Until(argsof(_), stop, P(_)) == AllOrders(ks, LAMBDA ps : Mapped(CallUntil(F, argsof(ps), stop, st, G), LAMBDA n : P(n < Len(ps))), st)
      items == TLCEval([i \in 1..Cardinality(ks) |-> <<SortedKeys(m)[i], m[SortedKeys(m)[i]]>>])
      Code(c) == IF m = EmptyFn THEN c ELSE IF a[2][1] = "i" /\ a[2][2] < 0 THEN c + 1 ELSE 0
      Top(sorted, n) == Mapped(sorted, LAMBDA r : A(TLCEval([i \in 1..Min2(n, Len(r)) |-> S(r[i][1])])))
  IN
  CASE f \in {"map.map", "map.mapWithKey"} -> Each(LAMBDA r : M(r))
    [] f \in {"map.filter", "map.filterWithKey"} -> Each(LAMBDA r : M(Restr(m, {k \in ks : r[k] = TRUEV})))
    [] f \in {"map.filterMap", "map.filterMapWithKey"} -> Each(LAMBDA r : M(Restr(r, {k \in ks : r[k] # NULL})))
    [] f \in {"map.flatMap", "map.flatMapWithKey"} ->
         Each(LAMBDA r : LET outk == UNION {DOMAIN r[k][2] : k \in ks} IN
                         IF \E k \in outk : Cardinality({r[j][2][k] : j \in {j \in ks : k \in DOMAIN r[j][2]}}) > 1 THEN POISON
                         ELSE M(TLCEval([k \in outk |-> LET j == CHOOSE j \in ks : k \in DOMAIN r[j][2] IN r[j][2][k]])))
    [] f \in {"map.zipmap", "map.zipmapWithKey"} ->
         IF \E j \in 1..Len(ms) : DOMAIN ms[j][2] # ks THEN Err(<<"rt", IF withKey THEN 26380 ELSE 26370>>, st)
         ELSE Each(LAMBDA r : M(r))
    [] f \in {"map.corresponds", "map.correspondsWithKey"} ->
         IF DOMAIN a[2][2] # ks THEN Val(FALSEV, st) ELSE Until(ArgsOf, FALSEV, LAMBDA stopped : B(~stopped))
    [] f = "map.containsKey" -> Until(LAMBDA ps : TLCEval([i \in 1..Len(ps) |-> <<S(ps[i])>>]), TRUEV, LAMBDA stopped : B(stopped))
    [] f = "map.containsValue" -> Until(LAMBDA ps : TLCEval([i \in 1..Len(ps) |-> <<m[ps[i]]>>]), TRUEV, LAMBDA stopped : B(stopped))
    [] f = "map.argmaxLT" -> IF m = EmptyFn THEN Err(<<"rt", 26140>>, st) ELSE Mapped(SortHighBy(F, items, st, G), LAMBDA r : S(r[1][1]))
    [] f = "map.argminLT" -> IF m = EmptyFn THEN Err(<<"rt", 26150>>, st) ELSE Mapped(SortBy(F, items, st, G), LAMBDA r : S(r[1][1]))
    [] f = "map.argmaxNLT" -> IF Code(26180) # 0 THEN Err(<<"rt", Code(26180)>>, st) ELSE Top(SortHighBy(F, items, st, G), a[2][2])
    [] f = "map.argminNLT" -> IF Code(26190) # 0 THEN Err(<<"rt", Code(26190)>>, st) ELSE Top(SortBy(F, items, st, G), a[2][2])
    [] OTHER -> GiveUp(st)

Hof(f, pts, a, rt, st, G) ==
  LET fn == IF \E i \in 1..Len(a) : a[i][1] = "fn" THEN (CHOOSE i \in 1..Len(a) : a[i][1] = "fn") ELSE 0
      F == a[fn][2]
      x == IF a[1][1] \in {"a", "m"} THEN a[1][2] ELSE <<>>
      MustNonEmpty(code) == x = <<>>
      NNeg2 == Len(a) >= 2 /\ a[2][1] = "i" /\ a[2][2] < 0
      \* sort for "low": ascending stable; for "high": descending stable
      SortLow == SortBy(F, Idx(x), st, G)
      SortHigh == SortHighBy(F, Idx(x), st, G)
  IN
  CASE f = "a.map" -> Mapped(CallAll(F, One(x), <<>>, st, G), LAMBDA r : A(r))
    [] f = "a.mapWithIndex" -> Mapped(CallAll(F, WithIdx(x), <<>>, st, G), LAMBDA r : A(r))
    [] f = "a.filter" -> Mapped(CallAll(F, One(x), <<>>, st, G), LAMBDA r : A(Sel(x, r)))
    [] f = "a.filterWithIndex" -> Mapped(CallAll(F, WithIdx(x), <<>>, st, G), LAMBDA r : A(Sel(x, r)))
    [] f = "a.filterMap" -> Mapped(CallAll(F, One(x), <<>>, st, G), LAMBDA r : A(SelectSeq(r, LAMBDA v : v # NULL)))
    [] f = "a.filterMapWithIndex" -> Mapped(CallAll(F, WithIdx(x), <<>>, st, G), LAMBDA r : A(SelectSeq(r, LAMBDA v : v # NULL)))
    [] f = "a.flatMap" -> Mapped(CallAll(F, One(x), <<>>, st, G), LAMBDA r : A(FlattenSeq2(TLCEval([i \in 1..Len(r) |-> r[i][2]]))))
    [] f = "a.flatMapWithIndex" -> Mapped(CallAll(F, WithIdx(x), <<>>, st, G), LAMBDA r : A(FlattenSeq2(TLCEval([i \in 1..Len(r) |-> r[i][2]]))))
    [] f \in {"a.zipmap", "a.zipmapWithIndex"} ->
        LET as == SubSeq(a, 1, Len(a)-1) IN
        IF \E i \in 1..Len(as) : Len(as[i][2]) # Len(as[1][2])
        THEN Err(<<"rt", IF f = "a.zipmap" THEN 15650 ELSE 15660>>, st)
        ELSE Mapped(CallAll(F, ZipArgs(as, Len(as[1][2]), f = "a.zipmapWithIndex"), <<>>, st, G), LAMBDA r : A(r))
    [] f = "a.reduce" -> IF x = <<>> THEN Err(<<"rt", 15670>>, st) ELSE CallFold(F, Head(x), Tail(x), FALSE, st, G)
    [] f = "a.reduceRight" -> IF x = <<>> THEN Err(<<"rt", 15680>>, st) ELSE CallFold(F, Last(x), Rev(Front(x)), TRUE, st, G)
    [] f = "a.fold" -> CallFold(F, a[2], x, FALSE, st, G)
    [] f = "a.foldRight" -> CallFold(F, a[2], Rev(x), TRUE, st, G)
    [] f = "a.takeWhile" -> Mapped(CallUntil(F, One(x), FALSEV, st, G), LAMBDA n : A(SubSeq(x, 1, n)))
    [] f = "a.dropWhile" -> Mapped(CallUntil(F, One(x), FALSEV, st, G), LAMBDA n : A(SubSeq(x, n+1, Len(x))))
    [] f = "a.any" -> Mapped(CallUntil(F, One(x), TRUEV, st, G), LAMBDA n : B(n < Len(x)))
    [] f = "a.all" -> Mapped(CallUntil(F, One(x), FALSEV, st, G), LAMBDA n : B(n = Len(x)))
    [] f \in {"a.corresponds", "a.correspondsWithIndex"} ->
        IF Len(a[1][2]) # Len(a[2][2]) THEN Val(FALSEV, st)
        ELSE Mapped(CallUntil(F, ZipArgs(SubSeq(a, 1, 2), Len(x), f = "a.correspondsWithIndex"), FALSEV, st, G), LAMBDA n : B(n = Len(x)))
    [] f = "a.contains" -> Mapped(CallUntil(F, One(x), TRUEV, st, G), LAMBDA n : B(n < Len(x)))
    [] f = "a.index" -> Mapped(CallUntil(F, One(x), TRUEV, st, G), LAMBDA n : I(IF n < Len(x) THEN n ELSE -1))
    [] f = "a.rindex" -> Mapped(CallUntil(F, One(Rev(x)), TRUEV, st, G), LAMBDA n : I(IF n < Len(x) THEN Len(x)-1-n ELSE -1))
    [] f = "a.count" -> Mapped(CallAll(F, One(x), <<>>, st, G), LAMBDA r : I(Sum01(r)))
    [] f = "a.groupby" -> Mapped(CallAll(F, One(x), <<>>, st, G),
           LAMBDA r : M(TLCEval([k \in {r[i][2] : i \in 1..Len(r)} |-> A(Sel(x, TLCEval([i \in 1..Len(r) |-> B(r[i][2] = k)])))])))
    [] f = "a.sortLT" -> Mapped(SortLow, LAMBDA r : A(TLCEval([i \in 1..Len(r) |-> r[i][2]])))
    [] f = "a.minLT" -> IF x = <<>> THEN Err(<<"rt", 15270>>, st) ELSE Mapped(SortLow, LAMBDA r : r[1][2])
    [] f = "a.maxLT" -> IF x = <<>> THEN Err(<<"rt", 15260>>, st) ELSE Mapped(SortHigh, LAMBDA r : r[1][2])
    [] f = "a.argminLT" -> IF x = <<>> THEN Err(<<"rt", 15350>>, st) ELSE Mapped(SortLow, LAMBDA r : I(r[1][1]-1))
    [] f = "a.argmaxLT" -> IF x = <<>> THEN Err(<<"rt", 15340>>, st) ELSE Mapped(SortHigh, LAMBDA r : I(r[1][1]-1))
    [] f = "a.minNLT" -> IF x = <<>> THEN Err(<<"rt", 15310>>, st) ELSE IF NNeg2 THEN Err(<<"rt", 15311>>, st)
                         ELSE Mapped(SortLow, LAMBDA r : A(TLCEval([i \in 1..Min2(a[2][2], Len(r)) |-> r[i][2]])))
    [] f = "a.maxNLT" -> IF x = <<>> THEN Err(<<"rt", 15300>>, st) ELSE IF NNeg2 THEN Err(<<"rt", 15301>>, st)
                         ELSE Mapped(SortHigh, LAMBDA r : A(TLCEval([i \in 1..Min2(a[2][2], Len(r)) |-> r[i][2]])))
    [] f = "a.argminNLT" -> IF x = <<>> THEN Err(<<"rt", 15390>>, st) ELSE IF NNeg2 THEN Err(<<"rt", 15391>>, st)
                         ELSE Mapped(SortLow, LAMBDA r : A(TLCEval([i \in 1..Min2(a[2][2], Len(r)) |-> I(r[i][1]-1)])))
    [] f = "a.argmaxNLT" -> IF x = <<>> THEN Err(<<"rt", 15380>>, st) ELSE IF NNeg2 THEN Err(<<"rt", 15381>>, st)
                         ELSE Mapped(SortHigh, LAMBDA r : A(TLCEval([i \in 1..Min2(a[2][2], Len(r)) |-> I(r[i][1]-1)])))
    [] OTHER -> HofMap(f, a, st, G)

E(e, st, G) ==
  LET k == e[1] IN
  CASE k = "k" -> Val(e[2], st)
    [] k = "ref" -> IF EnvHas(st.env, e[2]) THEN Val(EnvGet(st.env, e[2]), st) ELSE GiveUp(st)
    [] k = "do" -> EBlock(e[2], st, G)
    [] k = "let" ->
        LET r == EList(Exprs(e[2]), <<>>, st, G) IN
        IF r[1] = "e" THEN r ELSE Val(NULL, BindTop(r[3], Names(e[2]), r[2]))
    [] k = "set" ->
        LET r == EList(Exprs(e[2]), <<>>, st, G) IN
        IF r[1] = "e" THEN r ELSE Val(NULL, [r[3] EXCEPT !.env = EnvSetAll(@, Names(e[2]), r[2])])
    [] k = "call" ->
        LET f == e[2] IN
        IF f \in {"&&", "||"} THEN
             LET p == E(e[3][1], st, G) IN
             IF p[1] = "e" THEN p
             ELSE IF p[2] = B(f = "||") THEN Val(p[2], p[3]) ELSE E(e[3][2], p[3], G)
        ELSE IF f \in {"&&&", "|||"} THEN
             LET p == E(e[3][1], st, G)
                 dom == B(f = "|||") IN
             IF p[1] = "e" THEN p
             ELSE IF p[2] = dom THEN Val(dom, p[3])
             ELSE LET q == E(e[3][2], p[3], G) IN
                  IF q[1] = "e" THEN q
                  ELSE IF q[2] = dom THEN Val(dom, q[3])
                  ELSE IF p[2] = NULL \/ q[2] = NULL THEN Val(NULL, q[3])
                  ELSE Val(B(f = "&&&"), q[3])
        ELSE LET r == ArgVals(e[3], <<>>, st, G) IN
             IF r[1] = "e" THEN r
             ELSE IF f \in DOMAIN G.fs THEN CallUser(f, r[2], r[3], G)
             ELSE IF f = "emit" THEN Val(NULL, [r[3] EXCEPT !.out = Append(@, r[2][1])])
             ELSE IF \E i \in 1..Len(r[2]) : r[2][i][1] = "fn" THEN Hof(f, e[4], r[2], e[5], r[3], G)
             ELSE LET x == Lib(G.D, f, e[4], e[5], r[2]) IN
                  IF x[1] = "v" THEN (IF Poisoned(x[2]) THEN GiveUp(r[3]) ELSE Val(x[2], r[3]))
                  ELSE IF x[1] = "rt" THEN Err(x, r[3]) ELSE GiveUp(r[3])
    [] k = "callu" ->
        LET n == E(e[2], st, G) IN
        IF n[1] = "e" THEN n
        ELSE LET r == EList(e[3], <<>>, n[3], G) IN
             IF r[1] = "e" THEN r ELSE CallUser("u." \o n[2][2], r[2], r[3], G)
    [] k = "newmap" ->
        LET r == EList(Exprs(e[2]), <<>>, st, G) IN
        IF r[1] = "e" THEN r ELSE Val(M(BindFrame(Names(e[2]), r[2])), r[3])
    [] k = "newarr" ->
        LET r == EList(e[2], <<>>, st, G) IN
        IF r[1] = "e" THEN r ELSE Val(A(r[2]), r[3])
    [] k = "attr" ->
        LET x == E(e[2], st, G) IN
        IF x[1] = "e" THEN x
        ELSE LET p == EList(e[3], <<>>, x[3], G) IN
        IF p[1] = "e" THEN p
        ELSE LET g == PathGet(x[2], p[2]) IN
             IF g[1] = "v" THEN Val(g[2], p[3])
             ELSE IF g[2] = "?" THEN GiveUp(p[3]) ELSE Err(<<"rt", IF g[2] = "array" THEN 2000 ELSE 2001>>, p[3])
    [] k = "cell" ->
        LET p == EList(e[3], <<>>, st, G) IN
        IF p[1] = "e" THEN p
        ELSE LET g == PathGet(st.cells[e[2]], p[2]) IN
             IF g[1] = "v" THEN Val(g[2], p[3])
             ELSE IF g[2] = "?" THEN GiveUp(p[3]) ELSE Err(<<"rt", IF g[2] = "array" THEN 2004 ELSE 2005>>, p[3])
    [] k = "pool" ->
        LET p == EList(e[3], <<>>, st, G) IN
        IF p[1] = "e" THEN p
        ELSE LET g == PathGet(M(p[3].pools[e[2]]), p[2]) IN
             IF g[1] = "v" THEN Val(g[2], p[3])
             ELSE IF g[2] = "?" THEN GiveUp(p[3]) ELSE Err(<<"rt", IF g[2] = "array" THEN 2008 ELSE 2009>>, p[3])
    [] k = "attrto" ->
        LET x == E(e[2], st, G) IN
        IF x[1] = "e" THEN x
        ELSE LET p == EList(e[3], <<>>, x[3], G) IN
        IF p[1] = "e" THEN p
        ELSE LET t == IF e[4][1] \in {"fref", "fdef", "fill"} THEN Val(NULL, p[3]) ELSE E(e[4], p[3], G) IN
        IF t[1] = "e" THEN t ELSE Update(x[2], p[2], e[4], t[2], <<2002, 2003>>, t[3], G)
    [] k = "cellto" ->
        LET p == EList(e[3], <<>>, st, G) IN
        IF p[1] = "e" THEN p
        ELSE LET t == IF e[4][1] \in {"fref", "fdef", "fill"} THEN Val(NULL, p[3]) ELSE E(e[4], p[3], G) IN
        IF t[1] = "e" THEN t
        ELSE LET u == Update(t[3].cells[e[2]], p[2], e[4], t[2], <<2006, 2007>>, t[3], G) IN
             IF u[1] = "e" THEN u ELSE Val(u[2], [u[3] EXCEPT !.cells = Put(@, e[2], u[2])])
    [] k = "poolto" ->
        LET p == EList(e[3], <<>>, st, G) IN
        IF p[1] = "e" THEN p
        ELSE LET t == IF e[4][1] \in {"fref", "fdef", "fill"} THEN Val(NULL, p[3]) ELSE E(e[4], p[3], G) IN
        IF t[1] = "e" THEN t
        ELSE LET n == E(e[5], t[3], G) IN
        IF n[1] = "e" THEN n
        ELSE LET key == Head(p[2])[2]
                 pl == n[3].pools[e[2]]
                 cur == IF key \in DOMAIN pl THEN pl[key] ELSE n[2]
                 u == Update(cur, Tail(p[2]), e[4], t[2], <<2010, 2011>>, n[3], G) IN
             IF u[1] = "e" THEN u
             ELSE Val(u[2], [u[3] EXCEPT !.pools = Put(@, e[2], Put(@[e[2]], key, u[2]))])
    [] k = "pooldel" ->
        LET x == E(e[3], st, G) IN
        IF x[1] = "e" THEN x
        ELSE Val(NULL, [x[3] EXCEPT !.pools = Put(@, e[2], Drop(@[e[2]], x[2][2]))])
    [] k = "cond" ->
        LET r == ECond(e[2], st, G) IN IF r[1] = "e" THEN r ELSE Val(NULL, r[3])
    [] k = "condelse" ->
        LET r == ECond(e[2], st, G) IN
        IF r[1] = "e" THEN r ELSE IF r[2][1] THEN Val(r[2][2], r[3]) ELSE EBlock(e[3], r[3], G)
    [] k = "while" ->
        LET r == EWhile(e[2], e[3], PushFr(st, EmptyFn), G) IN
        IF r[1] = "e" THEN <<"e", r[2], PopFr(r[3])>> ELSE Val(NULL, PopFr(r[3]))
    [] k = "until" ->
        LET r == EUntil(e[2], e[3], PushFr(st, EmptyFn), G) IN
        IF r[1] = "e" THEN <<"e", r[2], PopFr(r[3])>> ELSE Val(NULL, PopFr(r[3]))
    [] k = "for" ->
        LET s0 == PushFr(st, EmptyFn)
            a == EList(Exprs(e[2]), <<>>, s0, G) IN
        IF a[1] = "e" THEN <<"e", a[2], PopFr(a[3])>>
        ELSE LET r == EForL(e[3], e[4], e[5], BindTop(a[3], Names(e[2]), a[2]), G) IN
             IF r[1] = "e" THEN <<"e", r[2], PopFr(r[3])>> ELSE Val(NULL, PopFr(r[3]))
    [] k = "foreach" ->
        LET x == E(e[3], st, G) IN
        IF x[1] = "e" THEN x
        ELSE LET r == EEach(e[2], x[2][2], e[4], PushFr(x[3], EmptyFn), G) IN
             <<r[1], r[2], PopFr(r[3])>>
    [] k = "forkv" ->
        LET x == E(e[4], st, G) IN
        IF x[1] = "e" THEN x
        ELSE LET r == AllOrders(DOMAIN x[2][2], LAMBDA ks : LET y == EEachKV(e[2], e[3], ks, x[2][2], e[5], PushFr(x[3], EmptyFn), G)
                                                            IN <<y[1], y[2], PopFr(y[3])>>, x[3])
             IN r
    [] k = "cast" ->
        LET x == E(e[2], st, G) IN
        IF x[1] = "e" THEN x
        ELSE LET cs == e[4]
                 mt == TLCEval([i \in 1..Len(cs) |-> CaseMatches(G.D, x[2], e[3], cs[i][1])])
                 hit == {i \in 1..Len(cs) : TRUE \in mt[i]} IN
             IF hit = {} THEN (IF e[5] THEN Val(NULL, x[3]) ELSE GiveUp(x[3]))
             ELSE LET i == CHOOSE i \in hit : \A j \in hit : i <= j IN
                  IF \E j \in 1..i : Cardinality(mt[j]) > 1 THEN GiveUp(x[3])   \* which branch is not determined by the erased value
                  ELSE LET r == ESeq(cs[i][3], PushFr(x[3], (cs[i][2] :> x[2])), G) IN
                       IF r[1] = "e" THEN <<"e", r[2], PopFr(r[3])>>
                       ELSE Val(IF e[5] THEN NULL ELSE r[2], PopFr(r[3]))
    [] k \in {"ifnn", "ifnnelse"} ->
        LET a == EList(Exprs(e[2]), <<>>, st, G) IN
        IF a[1] = "e" THEN a
        ELSE IF \E i \in 1..Len(a[2]) : a[2][i] = NULL
             THEN (IF k = "ifnn" THEN Val(NULL, a[3]) ELSE EBlock(e[4], a[3], G))
             ELSE LET r == EBlock(e[3], PushFr(a[3], BindFrame(Names(e[2]), a[2])), G) IN
                  IF r[1] = "e" THEN <<"e", r[2], PopFr(r[3])>>
                  ELSE Val(IF k = "ifnn" THEN NULL ELSE r[2], PopFr(r[3]))
    [] k = "error" -> Err(<<"user", e[2], e[3]>>, st)
    [] k = "try" ->
        LET r == ESeq(e[2], st, G) IN
        IF r[1] = "v" THEN r
        ELSE IF Matches(r[2], e[3]) THEN Val(NULL, [r[3] EXCEPT !.env = st.env])
        ELSE r
    [] k = "log" ->
        LET r == EList(e[2], <<>>, st, G) IN
        IF r[1] = "e" THEN r ELSE Val(NULL, [r[3] EXCEPT !.log = Append(@, <<r[2], e[3]>>)])
    [] OTHER -> GiveUp(st)
=============================================================================
