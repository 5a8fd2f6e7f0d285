--------------------------- MODULE LockProtocol ---------------------------
(***************************************************************************)
(* How shared state is protected: one lock per shared cell; for a pool one  *)
(* lock that guards the table of item locks and one lock per item, made    *)
(* on first use.  Each thread runs a program of updates (whose updater may *)
(* fail), removals and reads.  The value of an item is the sequence of the *)
(* updates that made it, so a lost update or a torn read shows.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, Items, Length
Op == [do : {"update", "fail", "remove"}, item : Items]
None == "none"
VARIABLES prog, at, step, table, outer, holder, value, old, history
vars == <<prog, at, step, table, outer, holder, value, old, history>>
(* prog: thread -> operations; at: thread -> index of its operation; step: where it is inside it
   table: items that have a lock; outer, holder[item]: who holds the locks
   value: item -> <<>> (absent) or <<seq>>; old[t]: what the updater of t was given; history: item -> effects in order *)
Init ==
  /\ prog \in [Threads -> [1..Length -> Op]]
  /\ at = [t \in Threads |-> 1]
  /\ step = [t \in Threads |-> "idle"]
  /\ table = {}
  /\ outer = None
  /\ holder = [x \in Items |-> None]
  /\ value = [x \in Items |-> <<>>]
  /\ old = [t \in Threads |-> <<>>]
  /\ history = [x \in Items |-> <<>>]
Running(t) == at[t] <= Length
Now(t) == prog[t][at[t]]
Go(t, s) == step' = [step EXCEPT ![t] = s]
TakeOuter(t) == /\ Running(t) /\ step[t] = "idle" /\ outer = None
                /\ outer' = t /\ Go(t, "outer") /\ UNCHANGED <<prog, at, table, holder, value, old, history>>
TakeItem(t) == LET x == Now(t).item IN
               /\ step[t] = "outer" /\ (x \notin table \/ holder[x] = None)
               /\ table' = table \cup {x} /\ holder' = [holder EXCEPT ![x] = t]
               /\ Go(t, "both") /\ UNCHANGED <<prog, at, outer, value, old, history>>
DropOuter(t) == /\ step[t] = "both" /\ outer' = None
                /\ Go(t, IF Now(t).do = "remove" THEN "remove" ELSE "read")
                /\ UNCHANGED <<prog, at, table, holder, value, old, history>>
ReadOld(t) == LET x == Now(t).item IN
              /\ step[t] = "read" /\ old' = [old EXCEPT ![t] = value[x]]
              /\ Go(t, IF Now(t).do = "fail" THEN "drop" ELSE "write")
              /\ UNCHANGED <<prog, at, table, outer, holder, value, history>>
Write(t) == LET x == Now(t).item IN
            /\ step[t] = "write"
            /\ value' = [value EXCEPT ![x] = << (IF old[t] = <<>> THEN <<>> ELSE old[t][1]) \o <<t>> >>]
            /\ history' = [history EXCEPT ![x] = Append(@, t)]
            /\ Go(t, "drop") /\ UNCHANGED <<prog, at, table, outer, holder, old>>
Remove(t) == LET x == Now(t).item IN
             /\ step[t] = "remove"
             /\ value' = [value EXCEPT ![x] = <<>>]
             /\ history' = [history EXCEPT ![x] = <<>>]
             /\ Go(t, "drop") /\ UNCHANGED <<prog, at, table, outer, holder, old>>
Drop(t) == LET x == Now(t).item IN
           /\ step[t] = "drop"
           /\ holder' = [holder EXCEPT ![x] = None]
           /\ at' = [at EXCEPT ![t] = @ + 1]
           /\ Go(t, "idle") /\ UNCHANGED <<prog, table, outer, value, old, history>>
Over == /\ \A t \in Threads : ~Running(t)
        /\ UNCHANGED vars
Next == Over \/ \E t \in Threads : TakeOuter(t) \/ TakeItem(t) \/ DropOuter(t) \/ ReadOld(t) \/ Write(t) \/ Remove(t) \/ Drop(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
NoLostUpdate == \A x \in Items : value[x] = IF history[x] = <<>> THEN <<>> ELSE <<history[x]>>
Exclusive == \A t, u \in Threads : \A x \in Items :
   t # u /\ Running(t) /\ Running(u) /\ Now(t).item = x /\ Now(u).item = x
   => ~(step[t] \in {"read", "write", "remove", "drop"} /\ step[u] \in {"read", "write", "remove", "drop"})
Released == (\A t \in Threads : ~Running(t)) => outer = None /\ \A x \in Items : holder[x] = None
AllFinish == <>(\A t \in Threads : ~Running(t))
=============================================================================
