----------------------------- MODULE PFAEngine -----------------------------
(***************************************************************************)
(* A scoring engine running one PFA document: loading (static checks),     *)
(* and the transitions begin, action, end on the engine state              *)
(*   [cells, pools : name -> value, started, finished : Nat, tally : value]*)
(* A document is the record the harness writes (see harness/ir.py):        *)
(*   D, fcns, cells, pools, method, in, out, zero, begin, action, end,     *)
(*   merge, version, metadata.                                             *)
(***************************************************************************)
EXTENDS PFAGraph

FUEL == 150
CellTypes(r) == TLCEval([c \in DOMAIN r.cells |-> r.cells[c].t])
PoolTypes(r) == TLCEval([c \in DOMAIN r.pools |-> r.pools[c].t])
FcnTable(r) == TLCEval([n \in {"u." \o r.fcns[i][1] : i \in 1..Len(r.fcns)} |->
                  LET f == r.fcns[CHOOSE i \in 1..Len(r.fcns) : "u." \o r.fcns[i][1] = n] IN
                  <<TLCEval([i \in 1..Len(f[2]) |-> f[2][i][2]]), f[3], TLCEval([i \in 1..Len(f[2]) |-> f[2][i][1]])>>])
StaticG(r) == [D |-> r.D, cells |-> CellTypes(r), pools |-> PoolTypes(r), fs |-> FcnTable(r),
               emit |-> IF r.method = "emit" THEN <<r.out>> ELSE <<>>]
Versioned(r) == r.version # NULL
BaseSyms(r) == << <<"name", TString>>, <<"instance", TInt>>, <<"metadata", TMap(TString)>> >>
               \o (IF Versioned(r) THEN << <<"version", TInt>> >> ELSE <<>>)
CountSyms == << <<"actionsStarted", TLong>>, <<"actionsFinished", TLong>> >>
TopScope == Scope(TRUE, FALSE)
Scopes(r, tally, syms) ==
  << IF tally THEN Declare(<<TopScope>>, "tally", r.out)[1] ELSE TopScope,
     DeclareAll(<<TopScope>>, syms)[1], Scope(TRUE, FALSE) >>
ElabPart(es, sc, G) == IF es = <<>> THEN [ok |-> "y", ts |-> <<TNull>>, es |-> <<>>, sc |-> sc] ELSE ElabSeq(es, sc, G)

\* loading: [ok, why, fs, begin, action, end, merge] with elaborated bodies
Worst(a, b) == IF a = "n" \/ b = "n" THEN "n" ELSE IF a = "?" \/ b = "?" THEN "?" ELSE "y"
RECURSIVE WorstOf(_)
WorstOf(s) == IF s = <<>> THEN "y" ELSE Worst(Head(s), WorstOf(Tail(s)))
Load(r) ==
  LET G == StaticG(r)
      fold == r.method = "fold"
      fb == TLCEval([i \in 1..Len(r.fcns) |-> LET f == r.fcns[i] IN
               LET b == ElabBlock(f[4], <<TopScope>>, G, f[2], TRUE) IN
               IF b.ok = "y" /\ ~IsBlockTypeOk(b.t, f[3]) THEN [ok |-> "n", t |-> b.t, es |-> <<"function body type">>] ELSE b])
      bg == ElabPart(r.begin, Scopes(r, FALSE, BaseSyms(r)), G)
      mg == IF fold THEN ElabPart(r.merge, Scopes(r, FALSE, << <<"tallyOne", r.out>>, <<"tallyTwo", r.out>> >> \o BaseSyms(r)), G)
            ELSE [ok |-> "y", ts |-> <<TNull>>, es |-> <<>>]
      en == ElabPart(r.end, Scopes(r, fold, BaseSyms(r) \o CountSyms), G)
      ac == ElabPart(r.action, Scopes(r, fold, << <<"input", r["in"]>> >> \o BaseSyms(r) \o CountSyms), G)
      parts == TLCEval([i \in 1..Len(fb) |-> fb[i].ok]) \o <<bg.ok, mg.ok, en.ok, ac.ok>>
      w == WorstOf(parts)
      outOk == r.method = "emit" \/ Accepts(r.out, Last(ac.ts))
      mergeOk == ~fold \/ Accepts(r.out, Last(mg.ts))
      firstWhy == LET xs == TLCEval([i \in 1..Len(fb) |-> <<fb[i].ok, fb[i].es>>]) \o << <<bg.ok, bg.es>>, <<mg.ok, mg.es>>, <<en.ok, en.es>>, <<ac.ok, ac.es>> >>
                      bad == {i \in 1..Len(xs) : xs[i][1] # "y"} IN
                  IF bad = {} THEN <<>> ELSE LET b == xs[CHOOSE i \in bad : \A j \in bad : i <= j][2] IN IF b = <<>> THEN <<"?">> ELSE b
  IN IF w # "y" THEN [ok |-> w, why |-> firstWhy]
     ELSE IF ~outOk THEN [ok |-> "n", why |-> <<"output type">>]
     ELSE IF ~mergeOk THEN [ok |-> "n", why |-> <<"merge type">>]
     ELSE [ok |-> "y", why |-> <<>>, actionType |-> Last(ac.ts),
           G |-> [D |-> r.D, fs |-> TLCEval([n \in DOMAIN G.fs |-> LET i == CHOOSE i \in 1..Len(r.fcns) : "u." \o r.fcns[i][1] = n IN <<G.fs[n][3], fb[i].es>>])],
           begin |-> bg.es, action |-> ac.es, end |-> en.es, merge |-> mg.es]

(***************************************************************************)
(* Engine state and steps                                                  *)
(***************************************************************************)
InitState(r) == [cells |-> TLCEval([c \in DOMAIN r.cells |-> r.cells[c].init]),
                 pools |-> TLCEval([c \in DOMAIN r.pools |-> r.pools[c].init]),
                 started |-> 0, finished |-> 0,
                 tally |-> IF r.method = "fold" THEN r.zero ELSE NULL]
BaseEnv(r) == [name |-> S(IF "name" \in DOMAIN r THEN r.name ELSE "Prog"), instance |-> I(r.instance), metadata |-> M(TLCEval([k \in DOMAIN r.metadata |-> S(r.metadata[k])]))]
              @@ (IF Versioned(r) THEN "version" :> r.version ELSE EmptyFn)
RunBody(r, ld, es, env, s) ==
  LET st == [env |-> <<env, EmptyFn>>, cells |-> s.cells, pools |-> s.pools, out |-> <<>>, log |-> <<>>, n |-> FUEL] IN
  IF es = <<>> THEN Val(NULL, st) ELSE ESeq(es, st, ld.G)
Rolled(r, s, x) ==   \* state after a failed action
  [cells |-> TLCEval([c \in DOMAIN s.cells |-> IF r.cells[c].rb THEN s.cells[c] ELSE x.cells[c]]),
   pools |-> TLCEval([c \in DOMAIN s.pools |-> IF r.pools[c].rb THEN s.pools[c] ELSE x.pools[c]])]
\* result: [res |-> <<"v", value>> | error, out, log, s |-> next state]
DoAction(r, ld, s, input) ==
  LET env == ("input" :> input) @@ BaseEnv(r) @@ ("actionsStarted" :> I(s.started + 1)) @@ ("actionsFinished" :> I(s.finished))
             @@ (IF r.method = "fold" THEN "tally" :> s.tally ELSE EmptyFn)
      x == RunBody(r, ld, ld.action, env, s) IN
  IF x[1] = "v"
  THEN [res |-> <<"v", IF r.method = "emit" THEN NULL ELSE x[2]>>, out |-> x[3].out, log |-> x[3].log,
        s |-> [cells |-> x[3].cells, pools |-> x[3].pools, started |-> s.started + 1, finished |-> s.finished + 1,
               tally |-> IF r.method = "fold" THEN x[2] ELSE NULL]]
  ELSE LET k == Rolled(r, s, x[3]) IN
       [res |-> x[2], out |-> x[3].out, log |-> x[3].log,
        s |-> [cells |-> k.cells, pools |-> k.pools, started |-> s.started + 1, finished |-> s.finished, tally |-> s.tally]]
\* merge is a transaction that replaces the tally
DoMerge(r, ld, s, two) ==
  LET env == ("tallyOne" :> two[2][1]) @@ ("tallyTwo" :> two[2][2]) @@ BaseEnv(r)
      x == RunBody(r, ld, ld.merge, env, s) IN
  IF x[1] = "v"
  THEN [res |-> <<"v", x[2]>>, out |-> x[3].out, log |-> x[3].log,
        s |-> [s EXCEPT !.cells = x[3].cells, !.pools = x[3].pools, !.tally = x[2]]]
  ELSE LET k == Rolled(r, s, x[3]) IN
       [res |-> x[2], out |-> x[3].out, log |-> x[3].log, s |-> [s EXCEPT !.cells = k.cells, !.pools = k.pools]]
\* begin and end are not transactions: what they changed before failing stays
DoBlock(r, ld, s, es, env) ==
  LET x == RunBody(r, ld, es, env, s) IN
  [res |-> IF x[1] = "v" THEN <<"v", NULL>> ELSE x[2], out |-> x[3].out, log |-> x[3].log,
   s |-> [s EXCEPT !.cells = x[3].cells, !.pools = x[3].pools]]
DoStep(r, ld, s, kind, input) ==
  CASE kind = "action" -> DoAction(r, ld, s, input)
    [] kind = "look" -> [res |-> <<"v", NULL>>, out |-> <<>>, log |-> <<>>, s |-> s]
    [] kind = "merge" -> DoMerge(r, ld, s, input)
    [] kind = "begin" -> DoBlock(r, ld, s, ld.begin, BaseEnv(r))
    [] OTHER -> DoBlock(r, ld, s, ld.end, BaseEnv(r) @@ ("actionsStarted" :> I(s.started)) @@ ("actionsFinished" :> I(s.finished))
                        @@ (IF r.method = "fold" THEN "tally" :> s.tally ELSE EmptyFn))

(***************************************************************************)
(* Judging a recorded run                                                  *)
(***************************************************************************)
StateOf(step) == [cells |-> step[6], pools |-> step[7], started |-> step[8], finished |-> step[9], tally |-> step[10]]
RECURSIVE PoisonedState(_)
PoisonedState(f) == \E c \in DOMAIN f : Poisoned(f[c])
Bag(s) == TLCEval([x \in Range(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})])
SameOut(r, x, y) == x = y \/ (r.uo /\ x[1] = "a" /\ y[1] = "a" /\ Bag(x[2]) = Bag(y[2]))
\* does the observed outcome agree with the predicted one?
SameRes(r, p, o) ==
  IF p[1] = "v" THEN o[1] = "v" /\ SameOut(r, p[2], o[2])
  ELSE p = o
JudgeStep(r, ld, s, step, i) ==
  LET p == DoStep(r, ld, s, step[1], step[2])
      o == step[3]
      t == StateOf(step) IN
  IF o[1] = "v" /\ step[1] = "action" /\ r.method # "emit" /\ ~Conforms(r.D, o[2], r.out)
  THEN <<"bad", "output-type", i, o>>
  ELSE IF p.res[1] = "poison" THEN <<"skip", "unmodelled", i>>
  ELSE IF p.res[1] = "v" /\ Poisoned(p.res[2]) THEN <<"skip", "unmodelled", i>>
  ELSE IF ~SameRes(r, p.res, o) THEN <<"bad", IF o[1] = "crash" THEN "crash" ELSE "result", i, p.res, o>>
  ELSE IF p.out # step[4] THEN <<"bad", "emitted", i, p.out, step[4]>>
  ELSE IF p.log # step[5] THEN <<"bad", "logged", i, p.log, step[5]>>
  ELSE IF p.s.cells # t.cells THEN <<"bad", "cells", i, p.s.cells, t.cells>>
  ELSE IF p.s.pools # t.pools THEN <<"bad", "pools", i, p.s.pools, t.pools>>
  ELSE IF p.s.started # t.started \/ p.s.finished # t.finished THEN <<"bad", "counters", i, <<p.s.started, p.s.finished>>, <<t.started, t.finished>>>>
  ELSE IF p.s.tally # t.tally THEN <<"bad", "tally", i, p.s.tally, t.tally>>
  ELSE <<"ok">>
\* every step is judged from the state observed before it; returns the list of non-ok verdicts
RECURSIVE JudgeSteps(_, _, _, _, _)
JudgeSteps(r, ld, s, steps, i) ==
  IF i > Len(steps) THEN <<>>
  ELSE LET v == JudgeStep(r, ld, s, steps[i], i) IN
       (IF v[1] = "ok" THEN <<>> ELSE <<v>>) \o JudgeSteps(r, ld, StateOf(steps[i]), steps, i+1)
\* values handed to or by the engine are never changed afterwards
JudgeWatch(r) == TLCEval(LET bad == SelectSeq(r.watch, LAMBDA w : w[2] # w[3]) IN
                 IF bad = <<>> THEN <<>> ELSE << <<"bad", "changed-later", 0, bad[1]>> >>)
\* verdict: sequence of <<"bad"|"skip", clause, ...>>, empty when everything agreed
JudgeRun(r) ==
  LET ld == Load(r) IN
  IF ld.ok = "?" THEN
     (IF r.load = "ok" THEN SelectSeq(
         TLCEval([i \in 1..Len(r.steps) |-> LET o == r.steps[i][3] IN
            IF o[1] = "v" /\ r.steps[i][1] = "action" /\ r.method # "emit" /\ ~Conforms(r.D, o[2], r.out) THEN <<"bad", "output-type", i, o>> ELSE <<"skip", "load", ld.why>>]),
         LAMBDA v : v[1] = "bad") \o << <<"skip", "load", ld.why>> >>
      ELSE << <<"skip", "load", ld.why>> >>)
  ELSE IF ld.ok = "n" THEN (IF r.load = "sem" THEN <<>> ELSE IF r.load = "ok" THEN << <<"bad", "accepted", 0, ld.why>> >> ELSE << <<"bad", "load-" \o r.load, 0, ld.why>> >>)
  ELSE IF Deadlocks(r, ld) THEN (IF r.load = "init" THEN <<>> ELSE << <<"bad", "deadlock-" \o r.load, 0>> >>)
  ELSE IF r.load # "ok" THEN << <<"bad", "refused-" \o r.load, 0, ld.actionType>> >>
  ELSE JudgeSteps(r, ld, InitState(r), r.steps, 1) \o JudgeWatch(r)
=============================================================================
