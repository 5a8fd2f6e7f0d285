--------------------------- MODULE SharedConform ---------------------------
(***************************************************************************)
(* Engines sharing cells and pools, one per thread.  Every statement of an *)
(* action is one atomic step on the shared state (PFALang!E evaluates it), *)
(* so a recorded history is right when TLC finds an order of the steps, in *)
(* agreement with each thread's order and with real time, that reproduces  *)
(* everything the threads logged, returned and left behind.                *)
(* One state machine per record; a record is accepted when some behaviour  *)
(* reaches its end.                                                        *)
(***************************************************************************)
EXTENDS PFAEngine
VARIABLES i, ld, pc, sh, pv
vars == <<i, ld, pc, sh, pv>>
Recs == ndJsonDeserialize(IOEnv.RECS)
NRecs == Len(Recs)
Say(x) == PrintT("@@" \o ToJson(x))
Only(f, s) == [n \in DOMAIN f \cap s |-> f[n]]
Others(f, s) == [n \in DOMAIN f \ s |-> f[n]]
R == Recs[i]
Shared == Range(R.shared)
Act(t, p) == R.threads[t][p[1]]
Done(t) == pc[t][1] > Len(R.threads[t])
Begins(t, p) == IF p[2] = 1 THEN Act(t, p).t0 ELSE Act(t, p).ops[p[2] - 1].t
Ends(t, p) == Act(t, p).ops[p[2]].t
Hopeless(r) == r.load # "ok" \/ r.stuck
               \/ \E t \in 1..Len(r.threads) : \E a \in 1..Len(r.threads[t]) : Len(r.threads[t][a].ops) = 0
IInit ==
  /\ i \in 1..NRecs
  /\ ld = IF Hopeless(R) THEN [ok |-> "bad"] ELSE Load(R)
  /\ pc = [t \in 1..Len(R.threads) |-> <<1, 1>>]
  /\ LET s == InitState(R) IN
     /\ sh = [cells |-> Only(s.cells, Shared), pools |-> Only(s.pools, Shared)]
     /\ pv = [t \in 1..Len(R.threads) |-> LET p == [cells |-> Others(s.cells, Shared), pools |-> Others(s.pools, Shared)] IN [now |-> p, saved |-> p]]
  /\ IF ld.ok = "bad" THEN Say(<<"BAD", i, <<"bad", IF R.stuck THEN "stuck" ELSE IF R.load # "ok" THEN "load" ELSE "no effect recorded", 0>>>>)
     ELSE IF ld.ok # "y" THEN Say(<<"SKIP", i, <<"skip", "load", ld.why>>>>) ELSE TRUE
Env(t, p) == ("input" :> Act(t, p)["in"]) @@ BaseEnv(R)
Run(t, p) ==
  LET st == [env |-> <<Env(t, p), EmptyFn>>, cells |-> sh.cells @@ pv[t].now.cells, pools |-> sh.pools @@ pv[t].now.pools, out |-> <<>>, log |-> <<>>, n |-> FUEL]
  IN E(ld.action[p[2]], st, ld.G)
\* the step of thread t explains what the record says about it
Explains(t, p, x) ==
  LET a == Act(t, p)
      failing == p[2] = Len(a.ops) /\ a.out[1] # "v" IN
  /\ x[3].log = a.ops[p[2]].log
  /\ IF failing THEN x[1] = "e" /\ x[2] = a.out ELSE x[1] = "v"
Kept(p, from) == [cells |-> [n \in DOMAIN p.cells |-> IF R.cells[n].rb THEN from.cells[n] ELSE p.cells[n]],
                  pools |-> [n \in DOMAIN p.pools |-> IF R.pools[n].rb THEN from.pools[n] ELSE p.pools[n]]]
Free(t) ==   \* no step of another thread had ended before this one could begin
  \A u \in DOMAIN pc : u = t \/ Done(u) \/ Ends(u, pc[u]) > Begins(t, pc[t])
Take(t, x) ==
  LET p == pc[t]
      last == p[2] = Len(Act(t, p).ops)
      mine == [cells |-> Others(x[3].cells, Shared), pools |-> Others(x[3].pools, Shared)]
      kept == IF x[1] = "v" THEN mine ELSE Kept(mine, pv[t].saved) IN
  /\ sh' = [cells |-> Only(x[3].cells, Shared), pools |-> Only(x[3].pools, Shared)]
  /\ pv' = [pv EXCEPT ![t] = [now |-> kept, saved |-> IF last THEN kept ELSE pv[t].saved]]
  /\ pc' = [pc EXCEPT ![t] = IF last THEN <<p[1] + 1, 1>> ELSE <<p[1], p[2] + 1>>]
  /\ UNCHANGED <<i, ld>>
Step(t) ==
  IF Done(t) THEN FALSE
  ELSE IF ~Free(t) THEN FALSE
  ELSE LET x == TLCEval(Run(t, pc[t])) IN IF Explains(t, pc[t], x) THEN Take(t, x) ELSE FALSE
AllDone == \A t \in DOMAIN pc : Done(t)
FinalOk == \A t \in DOMAIN pc : R.final[t].cells = sh.cells @@ pv[t].now.cells /\ R.final[t].pools = sh.pools @@ pv[t].now.pools
Accept == Say(<<"OK", i>>) /\ UNCHANGED vars
NNext == IF ld.ok # "y" THEN FALSE ELSE IF AllDone THEN (IF FinalOk THEN Accept ELSE FALSE) ELSE \E t \in DOMAIN pc : Step(t)
=============================================================================
