------------------------------- MODULE DDBag -------------------------------
(* Collections: finite functions from records to non-zero integers.         *)
(* Updates: tuples <<record, time, difference>>; sequences of them.         *)
EXTENDS DDTime

NoRows == [x \in {} |-> 0]
Norm(f) == LET D == {x \in DOMAIN f : f[x] # 0}
           IN IF D = DOMAIN f THEN f ELSE [x \in D |-> f[x]]
Mult(b, x) == IF x \in DOMAIN b THEN b[x] ELSE 0

SumOver(S, W(_)) == FoldSet(LAMBDA x, a : a + W(x), 0, S)

(* Group the elements of a set S of entries by K, summing W.                *)
GroupSum(S, K(_), W(_)) ==
    LET D == {K(x) : x \in S}
    IN Norm([d \in D |-> SumOver({x \in S : K(x) = d}, W)])

(* Sequence of <<record, weight>> to a bag.                                  *)
BagOf(s) == GroupSum(DOMAIN s, LAMBDA i : s[i][1], LAMBDA i : s[i][2])

BPlus(a, b) == Norm([x \in DOMAIN a \cup DOMAIN b |-> Mult(a, x) + Mult(b, x)])
BNeg(a) == [x \in DOMAIN a |-> -a[x]]
BMinus(a, b) == BPlus(a, BNeg(b))
BMap(F(_), b) == GroupSum(DOMAIN b, LAMBDA x : F(x), LAMBDA x : b[x])
BFilter(P(_), b) == LET D == {x \in DOMAIN b : P(x)} IN [x \in D |-> b[x]]
(* F maps a record to a sequence of <<record, weight>>.                      *)
BFlat(F(_), b) ==
    LET E == UNION {LET s == F(x) IN {<<x, i, s[i][1], s[i][2]>> : i \in DOMAIN s} : x \in DOMAIN b}
    IN GroupSum(E, LAMBDA e : e[3], LAMBDA e : e[4] * b[e[1]])
(* Join on the first field of two-field records; F(k, v, w) is the result.   *)
BJoin(F(_, _, _), a, b) ==
    LET E == UNION {{<<x, y>> : y \in {z \in DOMAIN b : z[1] = x[1]}} : x \in DOMAIN a}
    IN GroupSum(E, LAMBDA e : F(e[1][1], e[1][2], e[2][2]), LAMBDA e : a[e[1]] * b[e[2]])

(* Accumulation of a sequence of updates at time t.                          *)
AccAt(upds, t) ==
    LET I == {i \in DOMAIN upds : Leq(upds[i][2], t)}
    IN GroupSum(I, LAMBDA i : upds[i][1], LAMBDA i : upds[i][3])

(* Accumulation of updates whose time satisfies P.                           *)
AccIf(upds, P(_)) ==
    LET I == {i \in DOMAIN upds : P(upds[i][2])}
    IN GroupSum(I, LAMBDA i : upds[i][1], LAMBDA i : upds[i][3])

(* A consolidated set of updates: function from <<record, time>> to weight.  *)
UpdBag(upds) == GroupSum(DOMAIN upds, LAMBDA i : <<upds[i][1], upds[i][2]>>, LAMBDA i : upds[i][3])

Times(upds) == {upds[i][2] : i \in DOMAIN upds}
============================================================================
