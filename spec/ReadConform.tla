---------------------------- MODULE ReadConform ----------------------------
(* Judges documents as the engine reads and writes them. A record has D, doc (the document), kind ("whole" | "broken"), load (how the
   engine took it), again: << <<how, document written>>, .. >>, flags: << <<what, holds>>, .. >>, and the steps of a run of the document. *)
EXTENDS PFAReader
VARIABLE i
W == 8
Recs == ndJsonDeserialize(IOEnv.RECS)
NRecs == Len(Recs)
Say(x) == PrintT("@@" \o ToJson(x))
Same2(p, q) == q[1] = "y" /\ p[2] = q[2]
\* a document that could be read denotes the same program when it has been written
Rewritten(r, p) == \* \E would stop at the first
  TLCEval(SelectSeq([k \in 1..Len(r.again) |->
     LET q == TLCEval(RDoc(r.D, r.again[k][2])) IN
     IF q[1] = "?" \/ Same2(p, q) THEN <<"ok">>
     ELSE IF q[1] = "n" THEN <<"bad", "written wrong", 0, r.again[k][1], q[2]>>
     ELSE <<"bad", "written differently", 0, r.again[k][1], {f \in DOMAIN q[2] : q[2][f] # p[2][f]}>>], LAMBDA v : v[1] # "ok"))
Flags(r) == TLCEval(SelectSeq([k \in 1..Len(r.flags) |-> IF r.flags[k][2] THEN <<"ok">> ELSE <<"bad", r.flags[k][1], 0>>], LAMBDA v : v[1] # "ok"))
Judge(r) ==
  LET p == TLCEval(RDoc(r.D, r.doc)) IN
  IF r.load \in {"crash", "recursion"} THEN << <<"bad", "crashed", 0, p[1], r.msg>> >>
  ELSE IF p[1] = "?" THEN << <<"skip", "document", 0, p[2]>> >>
  ELSE IF p[1] = "n" THEN (IF r.load \in {"syntax", "type"} THEN <<>> ELSE << <<"bad", "malformed but " \o r.load, 0, p[2], r.msg>> >>)
  ELSE IF r.load \in {"syntax", "type"} THEN << <<"bad", "well-formed but refused", 0, r.msg>> >>
  ELSE Flags(r) \o Rewritten(r, p)
       \o (IF r.kind = "whole" THEN JudgeRun(TLCEval([f \in (DOMAIN r \cup DOMAIN p[2]) |-> IF f \in DOMAIN p[2] THEN p[2][f] ELSE r[f]])) ELSE <<>>)
Report(k) ==
  LET v == TLCEval(Judge(Recs[k])) IN
  IF v = <<>> THEN Say(<<"OK", k>>)
  ELSE \A j \in 1..Len(v) : Say(<<IF v[j][1] = "bad" THEN "BAD" ELSE "SKIP", k, v[j]>>)
IInit == i \in 1..W
NNext == i <= NRecs /\ Report(i) /\ i' = i + W
===========================================================================
