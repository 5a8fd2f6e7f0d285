----------------------------- MODULE PFAGraph -----------------------------
(***************************************************************************)
(* The static call graph of a document (over elaborated expressions, see   *)
(* PFALang), what can be reached in it, and the documents that could        *)
(* deadlock: those in which the updater of a cell or pool reaches another  *)
(* modification of a cell or pool.                                         *)
(***************************************************************************)
EXTENDS PFALang
FX == {"cell-to", "pool-to", "pool-del"}

RECURSIVE ConcatAll(_)
ConcatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o ConcatAll(Tail(ss))
Conds(cs) == ConcatAll(TLCEval([i \in 1..Len(cs) |-> <<cs[i][1]>> \o cs[i][2]]))
\* the expressions directly inside an elaborated expression (or function argument)
Kids(e) ==
  LET k == e[1] IN
  CASE k \in {"k", "ref", "error", "fref"} -> <<>>
    [] k = "do" -> e[2]
    [] k \in {"let", "set", "newmap"} -> Exprs(e[2])
    [] k = "newarr" -> e[2]
    [] k = "call" -> e[3]
    [] k = "callu" -> <<e[2]>> \o e[3]
    [] k = "fdef" -> e[3]
    [] k = "fill" -> Exprs(e[3])
    [] k = "attr" -> <<e[2]>> \o e[3]
    [] k = "attrto" -> <<e[2]>> \o e[3] \o <<e[4]>>
    [] k \in {"cell", "pool"} -> e[3]
    [] k = "cellto" -> e[3] \o <<e[4]>>
    [] k = "poolto" -> e[3] \o <<e[4], e[5]>>
    [] k = "pooldel" -> <<e[3]>>
    [] k = "cond" -> Conds(e[2])
    [] k = "condelse" -> Conds(e[2]) \o e[3]
    [] k = "while" -> <<e[2]>> \o e[3]
    [] k = "until" -> e[2] \o <<e[3]>>
    [] k = "for" -> Exprs(e[2]) \o <<e[3]>> \o Exprs(e[4]) \o e[5]
    [] k = "foreach" -> <<e[3]>> \o e[4]
    [] k = "forkv" -> <<e[4]>> \o e[5]
    [] k = "cast" -> <<e[2]>> \o ConcatAll(TLCEval([i \in 1..Len(e[4]) |-> e[4][i][3]]))
    [] k = "ifnn" -> Exprs(e[2]) \o e[3]
    [] k = "ifnnelse" -> Exprs(e[2]) \o e[3] \o e[4]
    [] k \in {"try", "log"} -> e[2]
\* what an expression names: functions and modifications
Own(e) ==
  CASE e[1] \in {"call", "fref", "fill"} -> {e[2]}
    [] e[1] = "callu" -> {"u." \o x : x \in Range(e[4])}
    [] e[1] = "cellto" -> {"cell-to"}
    [] e[1] = "poolto" -> {"pool-to"}
    [] e[1] = "pooldel" -> {"pool-del"}
    [] OTHER -> {}
RECURSIVE Calls(_), Updaters(_)
CallsOf(es) == UNION {Calls(es[i]) : i \in 1..Len(es)}
Calls(e) == Own(e) \cup CallsOf(Kids(e))
\* the updaters inside an expression, as sequence
UpdatersOf(es) == ConcatAll(TLCEval([i \in 1..Len(es) |-> Updaters(es[i])]))
Updaters(e) == (IF e[1] \in {"cellto", "poolto"} /\ e[4][1] \in {"fref", "fdef", "fill"} THEN <<e[4]>> ELSE <<>>) \o UpdatersOf(Kids(e))

\* ld: a loaded document (PFAEngine!Load)
UserFcns(ld) == DOMAIN ld.G.fs
Nodes(r, ld) == UserFcns(ld) \cup {"(begin)", "(action)", "(end)"} \cup (IF r.method = "fold" THEN {"(merge)"} ELSE {})
NodeBody(ld, n) ==
  CASE n = "(begin)" -> ld.begin [] n = "(action)" -> ld.action [] n = "(end)" -> ld.end [] n = "(merge)" -> ld.merge
    [] OTHER -> ld.G.fs[n][2]
Graph(r, ld) == TLCEval([n \in Nodes(r, ld) |-> CallsOf(NodeBody(ld, n))])
RECURSIVE Close(_, _)
Close(g, s) == LET t == s \cup UNION {g[n] : n \in s \cap DOMAIN g} IN IF t = s THEN s ELSE Close(g, t)
Reach(g, n) == IF n \in DOMAIN g THEN Close(g, g[n]) ELSE {}
SideEffects(g, n) == Reach(g, n) \cap FX # {}
Recursive(g, n) == n \in Reach(g, n)
ReachesCycle(g, n) == \E m \in {n} \cup Reach(g, n) : Recursive(g, m)
Deadlocks(r, ld) ==
  LET g == Graph(r, ld) IN
  \E n \in DOMAIN g : LET us == UpdatersOf(NodeBody(ld, n)) IN
    \E i \in 1..Len(us) : Close(g, Calls(us[i])) \cap FX # {}
=============================================================================
