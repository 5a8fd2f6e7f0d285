--------------------------- MODULE ChainConform ---------------------------
(***************************************************************************)
(* A chain of documents behaves as its engines wired one after another:    *)
(* every output (or emission) of step k is the next input of step k+1.     *)
(* The implicit symbols (name, metadata, version, the action counters) are *)
(* those of the chained engine.  A record carries the step documents, what *)
(* chaining and loading answered, and the recorded run of the chain:       *)
(*   steps, load, ops : <<kind, input, outcome, emitted, log, states,      *)
(*   started, finished>>, name, metadata, version.                         *)
(***************************************************************************)
EXTENDS PFAEngine
VARIABLE i
W == 8
Recs == ndJsonDeserialize(IOEnv.RECS)
NRecs == Len(Recs)
Say(x) == PrintT("@@" \o ToJson(x))

\* the output of one step may be handed to the next: the same types, with type names immaterial
RECURSIVE Fits(_, _, _, _, _)
Fits(D, a, DD, b, n) ==
  CASE n = 0 -> TRUE
    [] a[1] \in {"rec", "enum", "fixed"} /\ a[1] = b[1] ->
         LET x == D[a[2]]  y == DD[b[2]] IN
         CASE a[1] = "enum" -> x.syms = y.syms
           [] a[1] = "fixed" -> x.n = y.n
           [] OTHER -> Len(x.fields) = Len(y.fields)
                       /\ \A k \in 1..Len(x.fields) : x.fields[k][1] = y.fields[k][1] /\ Fits(D, x.fields[k][2], DD, y.fields[k][2], n-1)
    [] a[1] \in {"array", "map"} /\ a[1] = b[1] -> Fits(D, a[2], DD, b[2], n)
    [] a[1] = "union" /\ b[1] = "union" -> \A p \in Range(a[2]) : \E q \in Range(b[2]) : Fits(D, p, DD, q, n)
    [] OTHER -> a = b
\* every value of the first type could be taken as the second: what must not be chained is what is not even that
RECURSIVE Could(_, _, _, _, _)
Could(D, a, DD, b, n) ==
  CASE n = 0 -> TRUE
    [] a[1] = "union" -> \A p \in Range(a[2]) : Could(D, p, DD, b, n)
    [] b[1] = "union" -> \E q \in Range(b[2]) : Could(D, a, DD, q, n)
    [] a[1] = "rec" /\ b[1] = "rec" ->
         LET x == D[a[2]]  y == DD[b[2]] IN
         Len(x.fields) = Len(y.fields) /\ \A k \in 1..Len(x.fields) : x.fields[k][1] = y.fields[k][1] /\ Could(D, x.fields[k][2], DD, y.fields[k][2], n-1)
    [] a[1] \in {"array", "map"} /\ a[1] = b[1] -> Could(D, a[2], DD, b[2], n)
    [] a[1] \in {"int", "long", "float", "double"} /\ b[1] \in {"int", "long", "float", "double"} -> TRUE
    [] OTHER -> Fits(D, a, DD, b, n)

\* the step documents as they run inside the chain
Inside(c, k) == [c.steps[k] EXCEPT !.metadata = c.metadata, !.version = c.version] @@ ("name" :> c.name)
Docs(c) == TLCEval([k \in 1..Len(c.steps) |-> Inside(c, k)])
Counted(s, st) == [s EXCEPT !.started = st.started, !.finished = st.finished]
NoLogs(n) == TLCEval([k \in 1..n |-> <<>>])
PutStep(st, k, s) == [st EXCEPT !.ss = TLCEval([st.ss EXCEPT ![k] = [cells |-> s.cells, pools |-> s.pools, started |-> 0, finished |-> 0, tally |-> NULL]])]

\* hand inputs to step k, one after another; results leave at the end of the chain
\* -> [err : <<>> or <<outcome>>, outs, st, logs]
RECURSIVE Feed(_, _, _, _, _, _)
Feed(P, L, k, xs, j, a) ==
  IF j > Len(xs) \/ a.err # <<>> THEN a
  ELSE IF k > Len(P) THEN [a EXCEPT !.outs = @ \o SubSeq(xs, j, Len(xs))]
  ELSE LET x == DoAction(P[k], L[k], Counted(a.st.ss[k], [a.st EXCEPT !.started = @ - 1]), xs[j])
           emits == P[k].method = "emit"
           good == x.res[1] = "v"
           mine == [a EXCEPT !.st = PutStep(a.st, k, x.s), !.logs[k] = @ \o x.log]
           next == Feed(P, L, k+1, IF emits THEN x.out ELSE IF good THEN <<x.res[2]>> ELSE <<>>, 1, mine)
           whole == IF next.err = <<>> /\ ~good THEN [next EXCEPT !.err = <<x.res>>] ELSE next IN
       Feed(P, L, k, xs, j+1, whole)
Blank(st, n) == [err |-> <<>>, outs |-> <<>>, st |-> st, logs |-> NoLogs(n)]
\* the begin or end blocks of all steps, in order; what an end block emits is handed on
RECURSIVE Blocks(_, _, _, _, _)
Blocks(P, L, kind, k, a) ==
  IF k > Len(P) \/ a.err # <<>> THEN a
  ELSE LET x == DoStep(P[k], L[k], Counted(a.st.ss[k], a.st), kind, NULL)
           mine == [a EXCEPT !.st = PutStep(a.st, k, x.s), !.logs[k] = @ \o x.log]
           next == Feed(P, L, k+1, x.out, 1, mine)
           whole == IF next.err = <<>> /\ x.res[1] # "v" THEN [next EXCEPT !.err = <<x.res>>] ELSE next IN
       Blocks(P, L, kind, k+1, whole)
DoOp(P, L, op, st) ==
  LET n == Len(P) IN
  IF op[1] = "action"
  THEN Feed(P, L, 1, <<op[2]>>, 1, Blank([st EXCEPT !.started = @ + 1], n))
  ELSE Blocks(P, L, op[1], 1, Blank(st, n))

OpState(op) == [ss |-> TLCEval([k \in 1..Len(op[6]) |-> [cells |-> op[6][k][1], pools |-> op[6][k][2], started |-> 0, finished |-> 0, tally |-> NULL]]),
                started |-> op[7], finished |-> op[8]]
StartState(P) == [ss |-> TLCEval([k \in 1..Len(P) |-> InitState(P[k])]), started |-> 0, finished |-> 0]
Tainted(s) == \E v \in Range(s) : Poisoned(v)
\* the logs of each step, in order; the harness gives every step its own namespaces
OfStep(log, k) == SelectSeq(log, LAMBDA l : l[3] = k)
\* a failure further down the chain ends the steps before it, too
SameLogs(failed, p, o) == IF failed THEN Len(o) <= Len(p) /\ o = SubSeq(p, 1, Len(o)) ELSE o = p
JudgeOp(c, P, L, st, op, j) ==
  LET p == DoOp(P, L, op, st)
      n == Len(P)
      emits == \E k \in 1..n : P[k].method = "emit"
      o == op[3]
      got == IF emits THEN op[4] ELSE IF op[1] = "action" /\ o[1] = "v" THEN <<o[2]>> ELSE <<>>
      t == OpState(op) IN
  IF p.err # <<>> /\ p.err[1][1] = "poison" THEN <<"skip", "unmodelled", j>>
  ELSE IF Tainted(p.outs) THEN <<"skip", "unmodelled", j>>
  ELSE IF p.err # <<>> /\ p.err[1] # o THEN <<"bad", "error", j, p.err[1], o>>
  ELSE IF p.err = <<>> /\ o[1] # "v" THEN <<"bad", "failed", j, o>>
  ELSE IF p.outs # got THEN <<"bad", "outputs", j, p.outs, got>>
  ELSE IF \E k \in 1..n : ~SameLogs(p.err # <<>>, p.logs[k], TLCEval([q \in 1..Len(OfStep(op[5], k)) |-> <<OfStep(op[5], k)[q][1], OfStep(op[5], k)[q][2]>>]))
       THEN <<"bad", "logs", j, p.logs, op[5]>>
  ELSE IF t.started # st.started + (IF op[1] = "action" THEN 1 ELSE 0) \/ t.finished # st.finished + (IF op[1] = "action" /\ p.err = <<>> THEN 1 ELSE 0)
       THEN <<"bad", "counters", j, <<st.started, st.finished>>, <<t.started, t.finished>>>>
  ELSE IF p.err # <<>> /\ op[1] = "action" /\ (\E k \in 1..n : (\E x \in DOMAIN P[k].cells : P[k].cells[x].rb /\ t.ss[k].cells[x] # st.ss[k].cells[x])
                                                          \/ (\E x \in DOMAIN P[k].pools : P[k].pools[x].rb /\ t.ss[k].pools[x] # st.ss[k].pools[x]))
       THEN <<"bad", "rollback", j, st, t>>
  ELSE IF p.err # <<>> THEN <<"ok">>
  ELSE IF \E k \in 1..n : p.st.ss[k].cells # t.ss[k].cells THEN <<"bad", "cells", j, [k \in 1..n |-> p.st.ss[k].cells], [k \in 1..n |-> t.ss[k].cells]>>
  ELSE IF \E k \in 1..n : p.st.ss[k].pools # t.ss[k].pools THEN <<"bad", "pools", j, [k \in 1..n |-> p.st.ss[k].pools], [k \in 1..n |-> t.ss[k].pools]>>
  ELSE <<"ok">>
RECURSIVE JudgeOps(_, _, _, _, _)
JudgeOps(c, P, L, st, j) ==
  IF j > Len(c.ops) THEN <<>>
  ELSE LET v == JudgeOp(c, P, L, st, c.ops[j], j) IN
       (IF v[1] = "ok" THEN <<>> ELSE <<v>>) \o JudgeOps(c, P, L, OpState(c.ops[j]), j+1)

SharesName(c) == DOMAIN c.steps[1].D \cap DOMAIN c.steps[Len(c.steps)].D # {}
JudgeChain(c) ==
  LET P == Docs(c)
      n == Len(P)
      L == TLCEval([k \in 1..n |-> Load(P[k])])
      fits == \A k \in 1..(n-1) : Fits(P[k].D, P[k].out, P[k+1].D, P[k+1]["in"], 6)
      could == \A k \in 1..(n-1) : Could(P[k].D, P[k].out, P[k+1].D, P[k+1]["in"], 6) IN
  IF \E k \in 1..n : P[k].method = "fold" THEN (IF c.load = "fold" \/ (~fits /\ c.load = "misfit") THEN <<>> ELSE << <<"bad", "fold-" \o c.load, 0>> >>)
  ELSE IF ~could THEN (IF c.load = "misfit" THEN <<>> ELSE << <<"bad", "misfit-" \o c.load, 0>> >>)
  ELSE IF c.load = "misfit" THEN (IF fits THEN << <<"bad", "refused-misfit", 0>> >> ELSE <<>>)
  ELSE IF \E k \in 1..n : L[k].ok # "y" THEN << <<"skip", "load", 0>> >>
  ELSE IF \E k \in 1..n : Deadlocks(P[k], L[k]) THEN << <<"skip", "deadlock", 0>> >>
  ELSE IF c.load = "init" /\ (\E k \in 1..n : P[k].method = "emit") THEN << <<"skip", "deadlock", 0>> >>
  ELSE IF c.load = "names" /\ n > 1 /\ SharesName(c) THEN << <<"skip", "names", 0>> >>
  ELSE IF c.load # "ok" THEN << <<"bad", "refused-" \o c.load, 0>> >>
  ELSE JudgeOps(c, P, L, StartState(P), 1)

Report(k) ==
  LET v == JudgeChain(Recs[k]) IN
  IF v = <<>> THEN Say(<<"OK", k>>)
  ELSE \A j \in 1..Len(v) : Say(<<IF v[j][1] = "bad" THEN "BAD" ELSE "SKIP", k, v[j]>>)
IInit == i \in 1..W
NNext == i <= NRecs /\ Report(i) /\ i' = i + W
===========================================================================
