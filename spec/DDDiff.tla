------------------------------- MODULE DDDiff ------------------------------
(* Difference types and consolidation.  A type is a tuple:                   *)
(*   <<"int", lo, hi>>  integers (never taken past their limits)             *)
(*   <<"wrap", lo, hi>> integers modulo hi - lo + 1     <<"present">>        *)
(*   <<"tuple", <<A, ...>>>>      <<"vec", A>> vectors with implicit zeros   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Wrap(ty, x) == ((x - ty[2]) % (ty[3] - ty[2] + 1)) + ty[2]
RECURSIVE DZero(_), DIsZero(_, _), DPlus(_, _, _), DNeg(_, _), DMul(_, _, _, _), DMulTy(_, _)
DZero(ty) == CASE ty[1] \in {"int", "wrap"} -> 0
               [] ty[1] = "tuple" -> [i \in DOMAIN ty[2] |-> DZero(ty[2][i])]
               [] ty[1] = "vec" -> << >>
DIsZero(ty, a) == CASE ty[1] \in {"int", "wrap"} -> a = 0
                    [] ty[1] = "present" -> FALSE
                    [] ty[1] = "tuple" -> \A i \in DOMAIN ty[2] : DIsZero(ty[2][i], a[i])
                    [] ty[1] = "vec" -> \A i \in DOMAIN a : DIsZero(ty[2], a[i])
DPlus(ty, a, b) ==
    CASE ty[1] = "int" -> a + b
      [] ty[1] = "wrap" -> Wrap(ty, a + b)
      [] ty[1] = "present" -> a
      [] ty[1] = "tuple" -> [i \in DOMAIN ty[2] |-> DPlus(ty[2][i], a[i], b[i])]
      [] ty[1] = "vec" -> [i \in DOMAIN a \cup DOMAIN b |->
                             IF i \in DOMAIN a \cap DOMAIN b THEN DPlus(ty[2], a[i], b[i]) ELSE IF i \in DOMAIN a THEN a[i] ELSE b[i]]
DNeg(ty, a) == CASE ty[1] = "int" -> -a
                 [] ty[1] = "wrap" -> Wrap(ty, -a)
                 [] ty[1] = "tuple" -> [i \in DOMAIN ty[2] |-> DNeg(ty[2][i], a[i])]
                 [] ty[1] = "vec" -> [i \in DOMAIN a |-> DNeg(ty[2], a[i])]
(* The product of an element of ty with one of rt, and its type.               *)
DMulTy(ty, rt) == CASE ty[1] \in {"int", "wrap"} -> ty
                    [] ty[1] = "present" -> rt
                    [] ty[1] = "tuple" -> <<"tuple", [i \in DOMAIN ty[2] |-> DMulTy(ty[2][i], rt)]>>
                    [] ty[1] = "vec" -> <<"vec", DMulTy(ty[2], rt)>>
DMul(ty, a, rt, r) == CASE ty[1] = "int" -> a * r
                        [] ty[1] = "wrap" -> Wrap(ty, a * r)
                        [] ty[1] = "present" -> r
                        [] ty[1] = "tuple" -> [i \in DOMAIN ty[2] |-> DMul(ty[2][i], a[i], rt, r)]
                        [] ty[1] = "vec" -> [i \in DOMAIN a |-> DMul(ty[2], a[i], rt, r)]
RECURSIVE DMonoid(_)
DMonoid(ty) == CASE ty[1] = "present" -> FALSE [] ty[1] = "tuple" -> \A i \in DOMAIN ty[2] : DMonoid(ty[2][i]) [] ty[1] = "vec" -> DMonoid(ty[2]) [] OTHER -> TRUE

(* --- laws ------------------------------------------------------------------- *)
DLaws(ty, a, b, c) ==
    /\ DPlus(ty, a, b) = DPlus(ty, b, a)
    /\ DPlus(ty, DPlus(ty, a, b), c) = DPlus(ty, a, DPlus(ty, b, c))
    /\ DMonoid(ty) => /\ DPlus(ty, a, DZero(ty)) = a
                      /\ DIsZero(ty, DZero(ty))
                      /\ DIsZero(ty, DPlus(ty, a, DNeg(ty, a)))
                      /\ DIsZero(ty, a) => \A x \in {b, c} : DIsZero(ty, DPlus(ty, a, x)) = DIsZero(ty, x)
DMulLaws(ty, a, b, rt, r, s) ==
    LET mt == DMulTy(ty, rt) IN
    /\ DMonoid(rt) => \* without negatives nothing distributes over a sum of present things
         /\ DMonoid(ty) => DMul(ty, DPlus(ty, a, b), rt, r) = DPlus(mt, DMul(ty, a, rt, r), DMul(ty, b, rt, r))
         /\ DMul(ty, a, rt, DPlus(rt, r, s)) = DPlus(mt, DMul(ty, a, rt, r), DMul(ty, a, rt, s))
         /\ DMonoid(ty) => DMul(ty, DNeg(ty, a), rt, r) = DNeg(mt, DMul(ty, a, rt, r))

(* --- consolidation ------------------------------------------------------------- *)
(* Keys are sequences of integers, compared lexicographically.                     *)
RECURSIVE SeqCmp(_, _, _)
SeqCmp(a, b, i) == IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1) ELSE IF i > Len(b) THEN 1
                   ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE SeqCmp(a, b, i + 1)
(* Entries are <<key, difference>> with sequences of integers for keys.            *)
Sorted(o) == \A j \in 1 .. Len(o) - 1 : SeqCmp(o[j][1], o[j + 1][1], 1) = -1
Canonical(ty, o) == Sorted(o) /\ \A j \in DOMAIN o : ~DIsZero(ty, o[j][2])
RECURSIVE SumSeq(_, _)
SumSeq(ty, s) == IF Len(s) = 1 THEN s[1] ELSE DPlus(ty, SumSeq(ty, SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
(* The sums of the entries of a sequence by key, without the zeros.                 *)
Sums(ty, s) ==
    LET K == {s[j][1] : j \in DOMAIN s}
        all == [k \in K |-> LET mine == SelectSeq(s, LAMBDA e : e[1] = k) IN SumSeq(ty, [j \in DOMAIN mine |-> mine[j][2]])]
        N == {k \in K : ~DIsZero(ty, all[k])}
    IN [k \in N |-> all[k]]
AsFun(o) == LET K == {o[j][1] : j \in DOMAIN o} IN [k \in K |-> o[CHOOSE j \in DOMAIN o : o[j][1] = k][2]]
Consolidated(ty, s, o) == Canonical(ty, o) /\ AsFun(o) = Sums(ty, s)
============================================================================
