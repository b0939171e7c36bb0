---------------------------- MODULE DDLatticeMC ----------------------------
(* The laws of DDLattice, for all triples of times, all pairs of frontiers    *)
(* with up to two elements and all pairs of summaries, of a family of types.  *)
EXTENDS DDLattice
CONSTANTS N      \* integers are 0 .. N
I == <<"int", 0, N>>
I1 == <<"int", 0, 1>>
Seqs(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
RECURSIVE Vals(_), Sums(_)
Vals(ty) == CASE ty[1] = "int" -> ty[2] .. ty[3]
              [] ty[1] = "unit" -> {0}
              [] ty[1] \in {"prod", "lex"} -> Vals(ty[2]) \X Vals(ty[3])
              [] ty[1] = "point" -> {Trim(ty, s) : s \in Seqs(Vals(ty[2]), IF ty[2][1] = "int" THEN 3 ELSE 2)}
              [] ty[1] = "alt" -> Vals(ty[2]) \X {0, 1}
Sums(ty) == CASE ty[1] = "int" -> 0 .. 1
              [] ty[1] \in {"unit", "alt"} -> {0}
              [] ty[1] \in {"prod", "lex"} -> Sums(ty[2]) \X Sums(ty[3])
              [] ty[1] = "point" -> (-1 .. 2) \X Seqs(Sums(ty[2]), IF ty[2][1] = "int" THEN 2 ELSE 1)
Types == { I, <<"unit">>, <<"prod", I, I>>, <<"lex", I, I>>, <<"lex", <<"prod", I1, I1>>, I>>, <<"point", I1>>,
           <<"point", <<"prod", I1, I1>>>>, <<"alt", I>>, <<"alt", <<"prod", I1, I1>>>>, <<"prod", I1, <<"prod", I1, I1>>>>, <<"prod", <<"alt", I1>>, I1>>,
           <<"prod", <<"point", I1>>, I1>> }
(* Where lexicographic pairs have partially ordered first parts, or old and    *)
(* new times do, representatives may tell apart what nothing else can.         *)
Inexact == { <<"lex", <<"prod", I1, I1>>, I>>, <<"alt", <<"prod", I1, I1>>>> }
Small(ty) == Cardinality(Vals(ty)) <= 16

VARIABLES ty, ab     \* a type, and up to two times
vars == <<ty, ab>>
Init == ty \in Types /\ ab = << >>
Next == Len(ab) < 2 /\ ab' \in {Append(ab, x) : x \in Vals(ty)} /\ ty' = ty
Spec == Init /\ [][Next]_vars
a == ab[1]
b == ab[2]
Two == Len(ab) = 2

Triples == Two => \A c \in Vals(ty) : OrderLaws(ty, a, b, c) /\ LubLaws(ty, a, b, c)
Fronts == {F \in {{x, y} : x, y \in Vals(ty)} : TAntichain(ty, F)}
Reps == Two /\ Small(ty) => \A F \in Fronts : RepSound(ty, a, F, Vals(ty)) /\ (ty \notin Inexact => RepExact(ty, a, b, F, Vals(ty)))
Distr == Two /\ ty \notin Inexact => \A c \in Vals(ty) : Distributive(ty, a, b, c)
Summaries == /\ Two => \A s \in Sums(ty) : Monotone(ty, s, a, b)
             /\ Len(ab) = 1 => \A s, r \in Sums(ty) : Composes(ty, s, r, a)
(* Frontier join and meet are intersection and union of what lies beyond.      *)
Frontiers == Two => \A c \in Vals(ty) : LET F == TMinElems(ty, {a, b}) G == {c} IN \A u \in Vals(ty) :
    /\ TBeyond(ty, TFJoin(ty, F, G), u) <=> TBeyond(ty, F, u) /\ TBeyond(ty, G, u)
    /\ TBeyond(ty, TFMeet(ty, F, G), u) <=> TBeyond(ty, F, u) \/ TBeyond(ty, G, u)
============================================================================
