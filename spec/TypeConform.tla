---------------------------- MODULE TypeConform ----------------------------
(***************************************************************************)
(* Judges observations of the type system: acceptance between types, common*)
(* types, signature resolution, versions and life spans.                   *)
(*  D : key -> [full, k, fields <<name, type, hasDefault>>, syms, n]       *)
(***************************************************************************)
EXTENDS PFATypes, Json, IOUtils
VARIABLE i
W == 8
Recs == ndJsonDeserialize(IOEnv.RECS)
NRecs == Len(Recs)
SIGS == JsonDeserialize("signatures.json")
Say(x) == PrintT("@@" \o ToJson(x))

(* Named types are compared by full name; where two declarations of one    *)
(* name meet (types of different documents), also by what they contain.    *)
RECURSIVE AcceptsD(_, _, _, _)
AcceptsD(D, a, b, assumed) ==
  IF IsUnion(b) THEN \A j \in 1..Len(b[2]) : AcceptsD(D, a, b[2][j], assumed)
  ELSE IF IsUnion(a) THEN \E k \in 1..Len(a[2]) : AcceptsD(D, a[2][k], b, assumed)
  ELSE IF IsNumT(a) THEN IsNumT(b) /\ NumRank[b[1]] <= NumRank[a[1]]
  ELSE IF a[1] # b[1] THEN FALSE
  ELSE CASE a[1] \in {"array", "map"} -> AcceptsD(D, a[2], b[2], assumed)
         [] a[1] = "fixed" -> D[a[2]].full = D[b[2]].full /\ D[a[2]].n = D[b[2]].n
         [] a[1] = "enum" -> D[a[2]].full = D[b[2]].full /\ Range(D[b[2]].syms) \subseteq Range(D[a[2]].syms)
         [] a[1] = "rec" ->
              \/ a[2] = b[2]
              \/ <<a[2], b[2]>> \in assumed
              \/ /\ D[a[2]].full = D[b[2]].full
                 /\ \A k \in 1..Len(D[a[2]].fields) :
                      LET f == D[a[2]].fields[k]
                          js == {j \in 1..Len(D[b[2]].fields) : D[b[2]].fields[j][1] = f[1]}
                      IN IF js = {} THEN f[3]
                         ELSE \A j \in js : AcceptsD(D, f[2], D[b[2]].fields[j][2], assumed \cup {<<a[2], b[2]>>})
         [] a[1] = "fcn" ->
              /\ Len(a[2]) = Len(b[2])
              /\ \A k \in 1..Len(a[2]) : AcceptsD(D, b[2][k], a[2][k], assumed)
              /\ AcceptsD(D, a[3], b[3], assumed)
         [] a[1] = "exc" -> FALSE
         [] OTHER -> TRUE

\* versions are numbers major*10000 + minor*100 + release; -1: none
Alive(life, v) == (life[1] = -1 \/ life[1] <= v) /\ (life[3] = -1 \/ v < life[3])
DeprecatedAt(life, v) == life[2] # -1 /\ life[2] <= v /\ v < life[3]
\* the first live signature that fits
First(D, sigs, args, v) ==
  LET fits == {k \in 1..Len(sigs) : Alive(sigs[k].life, v) /\ SigAccept(D, sigs[k], args)[1]}
  IN IF fits = {} THEN <<"none">>
     ELSE LET k == CHOOSE k \in fits : \A j \in fits : k <= j
              r == SigAccept(D, sigs[k], args)
          IN <<"ok", k, r[2], r[3], DeprecatedAt(sigs[k].life, v)>>
SeqTEq(as, bs) == Len(as) = Len(bs) /\ \A k \in 1..Len(as) : TEq(as[k], bs[k])
SameSig(want, got) ==
  IF want[1] # got[1] THEN FALSE
  ELSE want[1] = "none" \/ (want[2] = got[2] /\ SeqTEq(want[3], got[3]) /\ TEq(want[4], got[4]) /\ want[5] = got[5])
LexLess(a, b) == CmpSeq(a, b, 1) < 0

Judge(r) ==
  CASE r.kind = "accepts" -> IF AcceptsD(r.D, r.a, r.b, {}) = r.got THEN <<>> ELSE << <<"bad", "accepts", 0, AcceptsD(r.D, r.a, r.b, {}), r.got>> >>
    [] r.kind = "broadest" ->
       LET w == Broadest(r.cands) IN
       IF (w[1] = FALSE /\ r.got[1] = "none") \/ (w[1] = TRUE /\ r.got[1] = "type" /\ TEq(w[2], r.got[2])) THEN <<>>
       ELSE << <<"bad", "broadest", 0, w, r.got>> >>
    [] r.kind = "sigs" ->
       LET w == First(r.D, r.sigs, r.args, r.version) IN
       IF SameSig(w, r.got) THEN <<>> ELSE << <<"bad", "signature", 0, w, r.got>> >>
    [] r.kind = "lib" ->
       LET w == First(r.D, SIGS[r.fcn], r.args, r.version) IN
       IF ~SameSig(w, r.got) THEN << <<"bad", "signature", 0, w, r.got>> >>
       ELSE IF r.infer[1] = "not asked" THEN <<>>
       ELSE IF w[1] = "none" THEN (IF r.infer[1] = "none" THEN <<>> ELSE << <<"bad", "call accepted", 0, w, r.infer>> >>)
       ELSE IF r.infer[1] = "type" /\ TEq(w[4], r.infer[2]) THEN <<>>
       ELSE << <<"bad", "type of call", 0, w, r.infer>> >>
    [] r.kind = "version" ->
       IF r.lt = LexLess(r.a, r.b) /\ r.ge = ~LexLess(r.a, r.b) THEN <<>> ELSE << <<"bad", "version order", 0, r.a, r.b, r.lt, r.ge>> >>
    [] r.kind = "life" ->
       IF r.current = (Alive(r.life, r.version) /\ ~DeprecatedAt(r.life, r.version)) /\ r.deprecated = DeprecatedAt(r.life, r.version) THEN <<>>
       ELSE << <<"bad", "life span", 0, r.life, r.version, r.current, r.deprecated>> >>
    [] OTHER -> << <<"bad", "unknown record", 0>> >>
Report(k) ==
  LET v == Judge(Recs[k]) IN
  IF v = <<>> THEN Say(<<"OK", k>>) ELSE \A j \in 1..Len(v) : Say(<<"BAD", k, v[j]>>)
IInit == i \in 1..W
NNext == i <= NRecs /\ Report(i) /\ i' = i + W
=============================================================================
