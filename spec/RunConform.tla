---------------------------- MODULE RunConform ----------------------------
(* Judges the records (one per line) of a file of program runs. *)
EXTENDS PFAEngine
VARIABLE i
W == 8
Recs == ndJsonDeserialize(IOEnv.RECS)
NRecs == Len(Recs)
Say(x) == PrintT("@@" \o ToJson(x))
Report(k) ==
  LET v == JudgeRun(Recs[k]) IN
  IF v = <<>> THEN Say(<<"OK", k>>)
  ELSE \A j \in 1..Len(v) : Say(<<IF v[j][1] = "bad" THEN "BAD" ELSE "SKIP", k, v[j]>>)
IInit == i \in 1..W
NNext == i <= NRecs /\ Report(i) /\ i' = i + W
===========================================================================
