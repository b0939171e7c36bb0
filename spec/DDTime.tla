------------------------------ MODULE DDTime ------------------------------
(* Timestamps are tuples of integers ordered coordinate-wise (a one-tuple   *)
(* is a totally ordered time).  Frontiers are sets of times (antichains).   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Leq(a, b) == \A i \in DOMAIN a : a[i] <= b[i]
Lt(a, b)  == a # b /\ Leq(a, b)
MaxI(x, y) == IF x >= y THEN x ELSE y
MinI(x, y) == IF x <= y THEN x ELSE y
Join(a, b) == [i \in DOMAIN a |-> MaxI(a[i], b[i])]
Meet(a, b) == [i \in DOMAIN a |-> MinI(a[i], b[i])]

(* t is in advance of frontier F (could still change / is still open).      *)
Beyond(F, t) == \E f \in F : Leq(f, t)
(* Frontier order: F precedes or equals G when G's times are all beyond F.  *)
FLeq(F, G) == \A g \in G : Beyond(F, g)
MinElems(S) == {s \in S : \A r \in S : Leq(r, s) => r = s}
IsAntichain(F) == \A a, b \in F : Leq(a, b) => a = b
FJoin(F, G) == MinElems({Join(f, g) : f \in F, g \in G})
FMeet(F, G) == MinElems(F \cup G)

(* The representative of t relative to frontier F: the greatest lower bound *)
(* of the joins of t with F's elements (t itself when F is empty).          *)
RECURSIVE MeetAll(_)
MeetAll(S) == LET x == CHOOSE x \in S : TRUE
              IN IF S = {x} THEN x ELSE Meet(x, MeetAll(S \ {x}))
Rep(t, F) == IF F = {} THEN t ELSE MeetAll({Join(t, f) : f \in F})

(* Closure under joins of a finite set of times.                            *)
RECURSIVE JoinClosure(_)
JoinClosure(S) == LET S2 == S \cup {Join(a, b) : a, b \in S}
                  IN IF S2 = S THEN S ELSE JoinClosure(S2)

(* Lexicographic comparison of integer tuples of equal length.              *)
RECURSIVE LexLeqFrom(_, _, _)
LexLeqFrom(a, b, i) == IF i > Len(a) THEN TRUE
                       ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLeqFrom(a, b, i + 1)
LexLeq(a, b) == LexLeqFrom(a, b, 1)
LexLt(a, b) == a # b /\ LexLeq(a, b)
============================================================================
