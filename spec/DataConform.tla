---------------------------- MODULE DataConform ----------------------------
(* Judges how engines take data in and give it out. A record has D, t and tests:
   [how, j, got] with how "data" | "doc", got <<"v", value>> | <<"refused", what>> | <<"crash", what>>,
   and for accepted values enc (the JSON of the output), bare (without tags), again (the value decoded from enc). *)
EXTENDS PFAData, IOUtils, Json
VARIABLE i
W == 8
Recs == ndJsonDeserialize(IOEnv.RECS)
NRecs == Len(Recs)
Say(x) == PrintT("@@" \o ToJson(x))
Judge(r, x) ==
  LET p == TLCEval(Decode(r.D, x.j, r.t, x.how)) IN
  IF x.started # 0 /\ x.got[1] # "v" THEN <<"bad", "scored refused data", 0, x.j>>
  ELSE IF p[1] = "no" THEN (IF x.got[1] = "v" THEN <<"bad", "accepted", x.how, x.j, x.got>> ELSE <<"ok">>)
  ELSE IF p[1] = "?" THEN <<"ok">>
  ELSE IF x.got[1] # "v" THEN <<"bad", "refused", x.how, x.j, x.got>>
  ELSE IF x.got[2] # p[2] THEN <<"bad", "value", x.how, p[2], x.got[2]>>
  ELSE IF x.seen # x.got[2] THEN <<"bad", "value seen", x.how, p[2], x.seen>>
  ELSE IF ~Same(p[2], x.enc) THEN <<"bad", "encoded", x.how, p[2], x.enc>>
  ELSE IF ~SameBare(p[2], x.bare) THEN <<"bad", "encoded without tags", x.how, p[2], x.bare>>
  ELSE IF x.again # p[2] THEN <<"bad", "decoded again", x.how, p[2], x.again>>
  ELSE <<"ok">>
Report(k) ==
  LET r == Recs[k]
      bad == SelectSeq(TLCEval([n \in 1..Len(r.tests) |-> Judge(r, r.tests[n])]), LAMBDA v : v[1] # "ok") IN
  IF bad = <<>> THEN Say(<<"OK", k>>) ELSE \A n \in 1..Len(bad) : Say(<<"BAD", k, bad[n]>>)
IInit == i \in 1..W
NNext == i <= NRecs /\ Report(i) /\ i' = i + W
===========================================================================
