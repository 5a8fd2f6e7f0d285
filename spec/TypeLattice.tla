---------------------------- MODULE TypeLattice ----------------------------
(***************************************************************************)
(* Laws of the specified type system, over every triple of a universe of   *)
(* types: acceptance is a preorder, antisymmetric up to equality, covariant *)
(* in containers and contravariant in parameters; the common type is the   *)
(* least bound; matching a pattern is stable under promotion.              *)
(***************************************************************************)
EXTENDS PFATypes
VARIABLES a, b, c
Leaf == {TNull, TBool, TInt, TLong, TFloat, TDouble, TString, TBytes, <<"rec", "R">>, <<"rec", "S">>, <<"enum", "E">>, <<"fixed", "F">>}
Some == {TInt, TDouble, TString, <<"rec", "R">>}
Unions == {TUnion(<<TNull, TInt>>), TUnion(<<TDouble, TNull>>), TUnion(<<TString, TLong, TNull>>), TUnion(<<TInt, TString>>),
           TUnion(<<<<"rec", "R">>, TNull>>), TUnion(<<<<"rec", "R">>, <<"rec", "S">>>>), TUnion(<<TArray(TInt), TString>>), TUnion(<<TArray(TDouble), TNull>>)}
U == Leaf \cup {TArray(t) : t \in Some} \cup {TMap(t) : t \in Some} \cup Unions \cup {TArray(u) : u \in Unions} \cup {TMap(TArray(TInt)), TArray(TMap(TLong))}
Init == a \in U /\ b \in U /\ c \in U
Next == UNCHANGED <<a, b, c>>
Preorder == Accepts(a, a) /\ (Accepts(a, b) /\ Accepts(b, c) => Accepts(a, c))
Antisymmetric == Accepts(a, b) /\ Accepts(b, a) => TEq(a, b)
Numbers == IsNumT(a) /\ ~IsUnion(b) => (Accepts(a, b) <=> IsNumT(b) /\ NumRank[b[1]] <= NumRank[a[1]])
Containers == /\ Accepts(TArray(a), TArray(b)) = Accepts(a, b)
              /\ Accepts(TMap(a), TMap(b)) = Accepts(a, b)
              /\ ~Accepts(TMap(a), TArray(b))
Functions == Accepts(TFcn(<<a>>, b), TFcn(<<c>>, b)) = Accepts(c, a)
Results == Accepts(TFcn(<<c>>, a), TFcn(<<c>>, b)) = Accepts(a, b)
Members == IsUnion(a) => \A k \in 1..Len(a[2]) : Accepts(a, a[2][k])
Bound == LET m == Broadest(<<a, b, c>>) IN m[1] => Accepts(m[2], a) /\ Accepts(m[2], b) /\ Accepts(m[2], c)
Least == LET m == Broadest(<<a, b>>) IN m[1] /\ Accepts(c, a) /\ Accepts(c, b) => Accepts(c, m[2])
Commutes == LET m == Broadest(<<a, b>>)  n == Broadest(<<b, a>>) IN m[1] = n[1] /\ (m[1] => TEq(m[2], n[2]))
Idempotent == LET m == Broadest(<<a, a>>) IN m[1] /\ TEq(m[2], a)
Law == Preorder /\ Antisymmetric /\ Numbers /\ Containers /\ Functions /\ Results /\ Members /\ Bound /\ Least /\ Commutes /\ Idempotent
=============================================================================
