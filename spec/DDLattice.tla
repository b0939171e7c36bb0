----------------------------- MODULE DDLattice -----------------------------
(* Timestamp types, their orders, lattices, summaries and frontiers.         *)
(*                                                                           *)
(* A type is a tuple:                                                        *)
(*   <<"int", min, max>>  integers             <<"unit">>   the one time     *)
(*   <<"prod", A, B>>     product order        <<"lex", A, B>>  lexicographic *)
(*   <<"point", A>>       vectors with implicit trailing minima              *)
(*   <<"alt", A>>         times of A, each split into old (0) and new (1)    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

MxI(x, y) == IF x >= y THEN x ELSE y
MnI(x, y) == IF x <= y THEN x ELSE y

RECURSIVE TMin(_), TMax(_), TLeq(_, _, _), TJoin(_, _, _), TMeet(_, _, _)
TMin(ty) == CASE ty[1] = "int" -> ty[2]
              [] ty[1] = "unit" -> 0
              [] ty[1] \in {"prod", "lex"} -> <<TMin(ty[2]), TMin(ty[3])>>
              [] ty[1] = "point" -> << >>
              [] ty[1] = "alt" -> <<TMin(ty[2]), 0>>
(* Only types with a greatest element have one.                              *)
TMax(ty) == CASE ty[1] = "int" -> ty[3]
              [] ty[1] = "unit" -> 0
(* The i-th coordinate of a point stamp.                                      *)
At(ty, p, i) == IF i \in DOMAIN p THEN p[i] ELSE TMin(ty[2])
Longer(a, b) == IF Len(a) >= Len(b) THEN DOMAIN a ELSE DOMAIN b
RECURSIVE Trim(_, _)
Trim(ty, p) == IF p # << >> /\ p[Len(p)] = TMin(ty[2]) THEN Trim(ty, SubSeq(p, 1, Len(p) - 1)) ELSE p

TLeq(ty, a, b) ==
    CASE ty[1] = "int" -> a <= b
      [] ty[1] = "unit" -> TRUE
      [] ty[1] = "prod" -> TLeq(ty[2], a[1], b[1]) /\ TLeq(ty[3], a[2], b[2])
      [] ty[1] = "lex" -> IF a[1] = b[1] THEN TLeq(ty[3], a[2], b[2]) ELSE TLeq(ty[2], a[1], b[1])
      [] ty[1] = "point" -> \A i \in Longer(a, b) : TLeq(ty[2], At(ty, a, i), At(ty, b, i))
      [] ty[1] = "alt" -> IF a[1] = b[1] THEN a[2] <= b[2] ELSE TLeq(ty[2], a[1], b[1])
TLt(ty, a, b) == a # b /\ TLeq(ty, a, b)

TJoin(ty, a, b) ==
    CASE ty[1] = "int" -> MxI(a, b)
      [] ty[1] = "unit" -> 0
      [] ty[1] = "prod" -> <<TJoin(ty[2], a[1], b[1]), TJoin(ty[3], a[2], b[2])>>
      [] ty[1] = "lex" -> IF a[1] = b[1] THEN <<a[1], TJoin(ty[3], a[2], b[2])>>
                          ELSE IF TLeq(ty[2], a[1], b[1]) THEN b
                          ELSE IF TLeq(ty[2], b[1], a[1]) THEN a
                          ELSE <<TJoin(ty[2], a[1], b[1]), TMin(ty[3])>>
      [] ty[1] = "point" -> Trim(ty, [i \in Longer(a, b) |-> TJoin(ty[2], At(ty, a, i), At(ty, b, i))])
      [] ty[1] = "alt" -> IF TLeq(ty, a, b) THEN b ELSE IF TLeq(ty, b, a) THEN a ELSE <<TJoin(ty[2], a[1], b[1]), 0>>
TMeet(ty, a, b) ==
    CASE ty[1] = "int" -> MnI(a, b)
      [] ty[1] = "unit" -> 0
      [] ty[1] = "prod" -> <<TMeet(ty[2], a[1], b[1]), TMeet(ty[3], a[2], b[2])>>
      [] ty[1] = "lex" -> IF a[1] = b[1] THEN <<a[1], TMeet(ty[3], a[2], b[2])>>
                          ELSE IF TLeq(ty[2], a[1], b[1]) THEN a
                          ELSE IF TLeq(ty[2], b[1], a[1]) THEN b
                          ELSE <<TMeet(ty[2], a[1], b[1]), TMax(ty[3])>>
      [] ty[1] = "point" -> Trim(ty, [i \in Longer(a, b) |-> TMeet(ty[2], At(ty, a, i), At(ty, b, i))])
      [] ty[1] = "alt" -> IF TLeq(ty, a, b) THEN a ELSE IF TLeq(ty, b, a) THEN b ELSE <<TMeet(ty[2], a[1], b[1]), 1>>

(* --- frontiers ------------------------------------------------------------ *)
TBeyond(ty, F, t) == \E f \in F : TLeq(ty, f, t)
TMinElems(ty, S) == {s \in S : ~ \E r \in S : TLt(ty, r, s)}
TAntichain(ty, F) == TMinElems(ty, F) = F
TFJoin(ty, F, G) == TMinElems(ty, {TJoin(ty, f, g) : f \in F, g \in G})
TFMeet(ty, F, G) == TMinElems(ty, F \cup G)
TFLeq(ty, F, G) == \A g \in G : TBeyond(ty, F, g)
RECURSIVE TMeetSeq(_, _)
TMeetSeq(ty, s) == IF Len(s) = 1 THEN s[1] ELSE TMeet(ty, s[1], TMeetSeq(ty, Tail(s)))
(* The representative of t at times in advance of F.                          *)
TRep(ty, t, F) == IF F = {} THEN t ELSE TMeetSeq(ty, SetToSeq({TJoin(ty, t, f) : f \in F}))

(* --- path summaries: << >> stands for a path that cannot be taken ----------- *)
RECURSIVE TRes(_, _, _), TFol(_, _, _), SLeq(_, _, _), SDefault(_)
SDefault(ty) ==
    CASE ty[1] = "int" -> 0
      [] ty[1] \in {"unit", "alt"} -> 0
      [] ty[1] \in {"prod", "lex"} -> <<SDefault(ty[2]), SDefault(ty[3])>>
      [] ty[1] = "point" -> <<-1, << >>>>
Both(x, y) == IF x = << >> \/ y = << >> THEN << >> ELSE << <<x[1], y[1]>> >>
Strict(s) == \A i \in DOMAIN s : s[i] # << >>
IntSum(ty, a, b) == IF (b >= 0 /\ a > ty[3] - b) \/ (b < 0 /\ a < ty[2] - b) THEN << >> ELSE <<a + b>>
TRes(ty, s, t) ==
    CASE ty[1] = "int" -> IntSum(ty, t, s)
      [] ty[1] = "unit" -> <<0>>
      [] ty[1] = "alt" -> <<t>>
      [] ty[1] \in {"prod", "lex"} -> Both(TRes(ty[2], s[1], t[1]), TRes(ty[3], s[2], t[2]))
      [] ty[1] = "point" ->
           \* keep the first s[1] coordinates (all when negative), then act on coordinates
           LET k == IF s[1] < 0 \/ s[1] >= Len(t) THEN t ELSE SubSeq(t, 1, s[1])
               r == [i \in Longer(k, s[2]) |-> IF i \in DOMAIN s[2] THEN TRes(ty[2], s[2][i], At(ty, k, i)) ELSE <<k[i]>>]
           IN IF Strict(r) THEN << Trim(ty, [i \in DOMAIN r |-> r[i][1]]) >> ELSE << >>
TFol(ty, s1, s2) ==
    CASE ty[1] = "int" -> IntSum(ty, s1, s2)
      [] ty[1] \in {"unit", "alt"} -> <<0>>
      [] ty[1] \in {"prod", "lex"} -> Both(TFol(ty[2], s1[1], s2[1]), TFol(ty[3], s1[2], s2[2]))
      [] ty[1] = "point" ->
           LET keep == IF s1[1] < 0 THEN s2[1] ELSE IF s2[1] < 0 THEN s1[1] ELSE MnI(s1[1], s2[1])
               k == IF s2[1] < 0 \/ s2[1] >= Len(s1[2]) THEN s1[2] ELSE SubSeq(s1[2], 1, s2[1])
               r == [i \in Longer(k, s2[2]) |-> IF i \in DOMAIN k THEN IF i \in DOMAIN s2[2] THEN TFol(ty[2], k[i], s2[2][i]) ELSE <<k[i]>> ELSE <<s2[2][i]>>]
           IN IF Strict(r) THEN << <<keep, [i \in DOMAIN r |-> r[i][1]]>> >> ELSE << >>
(* When one summary is known never to lead anywhere earlier than another.      *)
SLeq(ty, a, b) ==
    CASE ty[1] = "int" -> a <= b
      [] ty[1] \in {"unit", "alt"} -> TRUE
      [] ty[1] = "prod" -> SLeq(ty[2], a[1], b[1]) /\ SLeq(ty[3], a[2], b[2])
      [] ty[1] = "lex" -> IF a[1] = b[1] THEN SLeq(ty[3], a[2], b[2]) ELSE SLeq(ty[2], a[1], b[1])
      [] ty[1] = "point" -> /\ a[1] = b[1] /\ Len(a[2]) <= Len(b[2])
                            /\ \A i \in DOMAIN a[2] : SLeq(ty[2], a[2][i], b[2][i])

(* --- the laws, over given times --------------------------------------------- *)
OrderLaws(ty, a, b, c) ==
    /\ TLeq(ty, a, a)
    /\ TLeq(ty, a, b) /\ TLeq(ty, b, a) => a = b
    /\ TLeq(ty, a, b) /\ TLeq(ty, b, c) => TLeq(ty, a, c)
    /\ TLeq(ty, TMin(ty), a)
LubLaws(ty, a, b, c) ==
    LET j == TJoin(ty, a, b)  m == TMeet(ty, a, b)
    IN /\ TLeq(ty, a, j) /\ TLeq(ty, b, j)
       /\ TLeq(ty, a, c) /\ TLeq(ty, b, c) => TLeq(ty, j, c)
       /\ TLeq(ty, m, a) /\ TLeq(ty, m, b)
       /\ TLeq(ty, c, a) /\ TLeq(ty, c, b) => TLeq(ty, c, m)
Distributive(ty, a, b, c) == TMeet(ty, TJoin(ty, a, b), TJoin(ty, a, c)) = TJoin(ty, a, TMeet(ty, b, c))
(* a and its representative compare the same with every time beyond F; two    *)
(* times no time beyond F can tell apart have the same representative.         *)
RepSound(ty, a, F, U) == \A u \in U : TBeyond(ty, F, u) => (TLeq(ty, a, u) <=> TLeq(ty, TRep(ty, a, F), u))
RepExact(ty, a, b, F, U) ==
    (\A u \in U : TBeyond(ty, F, u) => (TLeq(ty, a, u) <=> TLeq(ty, b, u))) => TRep(ty, a, F) = TRep(ty, b, F)
Defined(x) == x # << >>
(* Summaries are monotone, ...                                                 *)
Monotone(ty, s, a, b) ==
    /\ TRes(ty, SDefault(ty), a) = <<a>>
    /\ TLeq(ty, a, b) /\ Defined(TRes(ty, s, b)) /\ Defined(TRes(ty, s, a)) => TLeq(ty, TRes(ty, s, a)[1], TRes(ty, s, b)[1])
(* ... compose, and are ordered consistently with what they do.                *)
Composes(ty, s, r, a) ==
    /\ LET x == TRes(ty, s, a)  f == TFol(ty, s, r)
       IN IF Defined(x) /\ Defined(f) THEN TRes(ty, f[1], a) = TRes(ty, r, x[1]) ELSE TRUE
    /\ SLeq(ty, s, r) /\ Defined(TRes(ty, r, a)) /\ Defined(TRes(ty, s, a)) => TLeq(ty, TRes(ty, s, a)[1], TRes(ty, r, a)[1])
============================================================================
