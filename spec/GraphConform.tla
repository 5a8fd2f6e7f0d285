--------------------------- MODULE GraphConform ---------------------------
(* Judges loaded documents and what their engines say about the call graph.
   r.graph: name -> [calls, reach, rec, hasrec, fx, depth (-1: infinite), raw] as observed *)
EXTENDS PFAEngine
VARIABLE i
W == 8
Recs == ndJsonDeserialize(IOEnv.RECS)
NRecs == Len(Recs)
Say(x) == PrintT("@@" \o ToJson(x))
Vocabulary(r, ld) == UserFcns(ld) \cup FX \cup KNOWN
\* longest path in the observed graph, of names that lead into no cycle
RECURSIVE Depth(_, _)
Max0(s) == IF s = {} THEN 0 ELSE CHOOSE x \in s : \A y \in s : x >= y
Depth(raw, n) == IF n \notin DOMAIN raw \/ raw[n] = <<>> THEN 0 ELSE 1 + Max0({Depth(raw, m) : m \in Range(raw[n])})
JudgeNode(r, ld, g, raw, n) ==
  LET o == r.graph[n]
      voc == Vocabulary(r, ld)
      Bad(what, p, x) == <<"bad", what, n, p, x>> IN
  IF g[n] \cap voc # Range(o.calls) \cap voc THEN Bad("calls", g[n], o.calls)
  ELSE IF Reach(g, n) \cap voc # Range(o.reach) \cap voc THEN Bad("reach", Reach(g, n), o.reach)
  ELSE IF Recursive(g, n) # o.rec THEN Bad("recursive", Recursive(g, n), o.rec)
  ELSE IF ReachesCycle(g, n) # o.hasrec THEN Bad("has recursion", ReachesCycle(g, n), o.hasrec)
  ELSE IF SideEffects(g, n) # o.fx THEN Bad("side effects", SideEffects(g, n), o.fx)
  ELSE LET d == IF ReachesCycle(g, n) THEN -1 ELSE Depth(raw, n) IN
       IF d # o.depth THEN Bad("depth", d, o.depth) ELSE <<"ok">>
JudgeGraph(r) ==
  LET ld == Load(r) IN
  IF ld.ok # "y" \/ r.load # "ok" \/ Deadlocks(r, ld) THEN JudgeRun(r)
  ELSE LET g == Graph(r, ld)
           raw == [n \in DOMAIN r.graph |-> r.graph[n].calls] IN
       IF DOMAIN g # DOMAIN r.graph THEN << <<"bad", "nodes", 0, DOMAIN g, DOMAIN r.graph>> >>
       ELSE LET bad == {n \in DOMAIN g : JudgeNode(r, ld, g, raw, n)[1] # "ok"} IN
            IF bad = {} THEN <<>> ELSE << JudgeNode(r, ld, g, raw, CHOOSE n \in bad : TRUE) >>
Report(k) ==
  LET v == JudgeGraph(Recs[k]) IN
  IF v = <<>> THEN Say(<<"OK", k>>)
  ELSE \A j \in 1..Len(v) : Say(<<IF v[j][1] = "bad" THEN "BAD" ELSE "SKIP", k, v[j]>>)
IInit == i \in 1..W
NNext == i <= NRecs /\ Report(i) /\ i' = i + W
===========================================================================
