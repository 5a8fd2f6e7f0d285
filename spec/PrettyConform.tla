-------------------------- MODULE PrettyConform --------------------------
(***************************************************************************)
(* The expressions of PrettyPFA: which tree a row of tokens spells.        *)
(* Operators bind by level (loosest first), associate to the left, and     *)
(* comparisons do not associate at all; a prefix operator takes everything *)
(* that binds at least as tightly as itself; an index binds tightest; the  *)
(* bodies of if, var and assignments reach as far as they can; parentheses *)
(* only group.                                                             *)
(* Tokens: <<"n", number>>, <<"x", <<name, name, ...>>>> (a dotted name),  *)
(* <<"p", punctuation, operator or keyword>>.                              *)
(* Trees: <<"int", n>>, <<"ref", x>>, <<"str", s>>, <<"call", f, args>>,   *)
(* <<"attr", e, path>>, <<"attrto", e, path, e>>, <<"set", x, e>>,         *)
(* <<"let", x, e>>, <<"do", es>>, <<"if", <<p, es, p, es, ...>>, else>>.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, SequencesExt
VARIABLE i
W == 8
Recs == ndJsonDeserialize(IOEnv.RECS)
NRecs == Len(Recs)
Say(x) == PrintT("@@" \o ToJson(x))

Compare == {"==", "!=", "<", "<=", ">", ">="}
Level(op) == CASE op = "||" -> 1 [] op = "^^" -> 2 [] op = "&&" -> 3 [] op = "!" -> 4 [] op \in Compare -> 5
               [] op = "|" -> 6 [] op = "^" -> 7 [] op = "&" -> 8 [] op \in {"+", "-"} -> 9
               [] op \in {"*", "/", "idiv", "%", "%%"} -> 10 [] op \in {"u-", "~"} -> 11 [] op = "**" -> 12
Binary == {"||", "^^", "&&", "|", "^", "&", "+", "-", "*", "/", "idiv", "%", "%%", "**"} \cup Compare
Function(op) == IF op = "idiv" THEN "//" ELSE op

Fail == <<"fail">>
Failed(x) == x[1] = "fail"
Got(t, p) == <<"got", t, p>>
Tok(T, p) == IF p <= Len(T) THEN T[p] ELSE <<"p", "">>
At(T, p, s) == Tok(T, p) = <<"p", s>>
Items(t) == IF t[1] = "do" THEN t[2] ELSE <<t>>
Field(names) == TLCEval([k \in 1..(Len(names)-1) |-> <<"str", names[k+1]>>])
Named(names) == IF Len(names) = 1 THEN <<"ref", names[1]>> ELSE <<"attr", <<"ref", names[1]>>, Field(names)>>
FullName(names) == FoldLeft(LAMBDA a, b : a \o "." \o b, names[1], Tail(names))

RECURSIVE Expr(_, _, _), Ops(_, _, _, _, _), Operand(_, _), Index(_, _, _), List(_, _, _, _, _)
\* an expression of operators that bind at least as tightly as lvl
Expr(T, p, lvl) == LET a == Operand(T, p) IN IF Failed(a) THEN Fail ELSE Ops(T, a[3], lvl, a[2], FALSE)
\* left is read; compared: it is a comparison that may not be compared again
Ops(T, p, lvl, left, compared) ==
  LET t == Tok(T, p) IN
  IF t[1] # "p" \/ t[2] \notin Binary \/ Level(t[2]) < lvl THEN Got(left, p)
  ELSE IF t[2] \in Compare /\ compared THEN Fail
  ELSE LET r == Expr(T, p+1, Level(t[2]) + 1) IN
       IF Failed(r) THEN Fail
       ELSE Ops(T, r[3], lvl, <<"call", Function(t[2]), <<left, r[2]>>>>, t[2] \in Compare)
\* a comma-separated or semicolon-separated list up to close: the position after it
List(T, p, sep, close, done) ==
  IF At(T, p, close) /\ (done = <<>> \/ sep = ";") THEN Got(done, p+1)
  ELSE LET e == Expr(T, p, 1) IN
       IF Failed(e) THEN Fail
       ELSE IF At(T, e[3], close) THEN Got(Append(done, e[2]), e[3]+1)
       ELSE IF At(T, e[3], sep) THEN List(T, e[3]+1, sep, close, Append(done, e[2]))
       ELSE Fail
\* what may follow in brackets
Index(T, p, e) ==
  IF ~At(T, p, "[") THEN Got(e, p)
  ELSE LET path == List(T, p+1, ",", "]", <<>>) IN
       IF Failed(path) THEN Fail
       ELSE LET base == IF e[1] = "attr" /\ Len(e) = 4 THEN e[2] ELSE e
                way == IF e[1] = "attr" /\ Len(e) = 4 THEN e[3] \o path[2] ELSE path[2] IN
            IF At(T, path[3], "=")
            THEN LET v == Expr(T, path[3]+1, 1) IN IF Failed(v) THEN Fail ELSE Got(<<"attrto", base, way, v[2]>>, v[3])
            ELSE Index(T, path[3], <<"attr", base, way>>)
\* Len(e) = 4 above: an attr spelled with dots, whose path an index in brackets goes on with
Operand(T, p) ==
  LET t == Tok(T, p) IN
  CASE t[1] = "n" -> Index(T, p+1, <<"int", t[2]>>)
    [] t[1] = "x" /\ At(T, p+1, "(") ->
         LET a == List(T, p+2, ",", ")", <<>>) IN
         IF Failed(a) THEN Fail ELSE Index(T, a[3], <<"call", FullName(t[2]), a[2]>>)
    [] t[1] = "x" /\ At(T, p+1, "=") ->
         LET v == Expr(T, p+2, 1) IN
         IF Failed(v) \/ At(T, v[3], ",") THEN Fail      \* a comma goes on with a second assignment
         ELSE IF Len(t[2]) = 1 THEN Got(<<"set", t[2][1], v[2]>>, v[3]) ELSE Got(<<"attrto", <<"ref", t[2][1]>>, Field(t[2]), v[2]>>, v[3])
    [] t[1] = "x" -> LET n == Named(t[2]) IN
         IF n[1] = "attr" /\ At(T, p+1, "[") THEN Index(T, p+1, Append(n, "name")) ELSE Index(T, p+1, n)
    [] t = <<"p", "(">> -> LET e == Expr(T, p+1, 1) IN IF Failed(e) \/ ~At(T, e[3], ")") THEN Fail ELSE Index(T, e[3]+1, e[2])
    [] t = <<"p", "{">> -> LET es == List(T, p+1, ";", "}", <<>>) IN IF Failed(es) \/ es[2] = <<>> THEN Fail ELSE Index(T, es[3], <<"do", es[2]>>)
    [] t \in {<<"p", "-">>, <<"p", "~">>, <<"p", "!">>} ->
         LET op == IF t[2] = "-" THEN "u-" ELSE t[2]
             e == Expr(T, p+1, Level(op)) IN
         IF Failed(e) THEN Fail
         ELSE Got(IF op = "u-" /\ e[2][1] = "int" THEN <<"int", 0 - e[2][2]>> ELSE <<"call", op, <<e[2]>>>>, e[3])
    [] t = <<"p", "var">> ->
         IF Tok(T, p+1)[1] # "x" \/ ~At(T, p+2, "=") THEN Fail
         ELSE LET v == Expr(T, p+3, 1) IN IF Failed(v) \/ At(T, v[3], ",") THEN Fail ELSE Got(<<"let", FullName(Tok(T, p+1)[2]), v[2]>>, v[3])
    [] t = <<"p", "if">> ->
         IF ~At(T, p+1, "(") THEN Fail
         ELSE LET c == Expr(T, p+2, 1) IN
              IF Failed(c) \/ ~At(T, c[3], ")") THEN Fail
              ELSE LET b == Expr(T, c[3]+1, 1) IN
                   IF Failed(b) THEN Fail
                   ELSE IF ~At(T, b[3], "else") THEN Got(<<"if", <<c[2], Items(b[2])>>, <<>>>>, b[3])
                   ELSE LET o == Expr(T, b[3]+1, 1) IN
                        IF Failed(o) THEN Fail
                        ELSE IF o[2][1] = "if" THEN Got(<<"if", <<c[2], Items(b[2])>> \o o[2][2], o[2][3]>>, o[3])
                        ELSE Got(<<"if", <<c[2], Items(b[2])>>, Items(o[2])>>, o[3])
    [] OTHER -> Fail
Spelled(T) == LET e == Expr(T, 1, 1) IN IF Failed(e) \/ e[3] <= Len(T) THEN Fail ELSE <<"tree", e[2]>>

\* only rows of operators, names, numbers and parentheses are judged when they spell nothing: the lists of the language are lenient
Plain(T) == \A k \in 1..Len(T) : T[k][1] # "p" \/ T[k][2] \in (Binary \cup {"!", "~", "(", ")"})
Judge(r) ==
  LET s == Spelled(r.tokens) IN
  IF s[1] = "tree" THEN (IF r.got = s THEN <<"ok">> ELSE <<"bad", IF r.got[1] = "tree" THEN "tree" ELSE "refused", s, r.got>>)
  ELSE IF r.got[1] = "tree" THEN (IF Plain(r.tokens) THEN <<"bad", "accepted", r.got>> ELSE <<"skip", "lenient">>)
  ELSE IF r.got[1] = "crash" THEN <<"bad", "crash", r.got>>
  ELSE <<"ok">>
Report(k) ==
  LET v == Judge(Recs[k]) IN
  IF v[1] = "ok" THEN Say(<<"OK", k>>) ELSE Say(<<IF v[1] = "bad" THEN "BAD" ELSE "SKIP", k, v>>)
IInit == i \in 1..W
NNext == i <= NRecs /\ Report(i) /\ i' = i + W
===========================================================================
