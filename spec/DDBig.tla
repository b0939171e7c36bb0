------------------------------- MODULE DDBig -------------------------------
(* Dataflows that have more to do than they do at once.                     *)
(*                                                                          *)
(* The behaviour is that of DDFlow; what differs is that inputs are runs of  *)
(* values of a key, <<key, lo, n, time, diff>>, and that outputs are records *)
(* counted by residue, so that a large computation has a small account: what *)
(* a join of two runs amounts to is the product of what each amounts to, by  *)
(* residue, whatever the number of records it produces on the way.           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, DDTime

VARIABLES ins,    \* ins[i]: runs accepted by logical input i
          infr,   \* infr[p]: frontier promised by physical input p
          outs,   \* outs[o]: function from <<record, time>> to the sum of what output o emitted
          outfr   \* outfr[o][w]: frontier of output o as known to worker w
bigVars == <<ins, infr, outs, outfr>>

BigInit(nw, nout, zero) ==
    /\ ins = [i \in 1 .. 2 |-> << >>]
    /\ infr = [p \in 1 .. 2 * nw |-> {zero}]
    /\ outs = [o \in 1 .. nout |-> << >>]
    /\ outfr = [o \in 1 .. nout |-> [w \in 1 .. nw |-> {zero}]]

(* How many values v of a run have v % m = r.                                *)
Below(n, m, r) == IF n <= r THEN 0 ELSE (n - r - 1) \div m + 1
InRun(s, m, r) == Below(s[2] + s[3], m, r) - Below(s[2], m, r)
SumSeq(F(_), s) == LET RECURSIVE go(_) go(j) == IF j = 0 THEN 0 ELSE F(s[j]) + go(j - 1) IN go(Len(s))
SumOver(F(_), S) == FoldSet(LAMBDA x, a : F(x) + a, 0, S)
(* The runs accepted at times up to t.                                       *)
UpTo(i, t) == SelectSeq(ins[i], LAMBDA s : Leq(s[4], t))
Keys(R) == {R[j][1] : j \in DOMAIN R}
OfKey(R, k) == SelectSeq(R, LAMBDA s : s[1] = k)
(* What key k amounts to, by residue.                                        *)
Mass(R, k, m, r) == SumSeq(LAMBDA s : s[5] * InRun(s, m, r), OfKey(R, k))
(* The multiplicity of value v of key k.                                     *)
Mult(R, k, v) == SumSeq(LAMBDA s : IF s[1] = k /\ s[2] <= v /\ v < s[2] + s[3] THEN s[5] ELSE 0, R)
(* Runs change nothing between the places where one starts or ends.          *)
Cuts(R, k) == UNION {{s[2], s[2] + s[3]} : s \in {R[j] : j \in {x \in DOMAIN R : R[x][1] = k}}}
Next1(C, c) == CHOOSE d \in C : d > c /\ \A e \in C : ~(e > c /\ e < d)
(* How many values of key k with residues (a, b) modulo 2 and 3 are present, that is of nonzero multiplicity. *)
Present(R, k, a, b) ==
    LET C == Cuts(R, k) IN
    SumOver(LAMBDA c : IF (\E d \in C : d > c) /\ Mult(R, k, c) # 0
                       THEN Cardinality({v \in c .. Next1(C, c) - 1 : v % 2 = a /\ v % 3 = b}) ELSE 0, C)
(* The values with residues (a, b) modulo 2 and 3 are those with one residue modulo 6. *)
Six(a, b) == CHOOSE x \in 0 .. 5 : x % 2 = a /\ x % 3 = b

Residues == {<<a, b>> : a \in 0 .. 1, b \in 0 .. 2}
(* What program e amounts to at t: a function from records to multiplicities, with zeros. *)
Denote(e, t) ==
    LET A == UpTo(1, t)
        B == IF e = "self" THEN A ELSE UpTo(2, t)
    IN  IF e \in {"join", "self", "arranged"} THEN
            [r \in Residues |-> SumOver(LAMBDA k : Mass(A, k, 2, r[1]) * Mass(B, k, 3, r[2]), Keys(A) \cap Keys(B))]
        ELSE IF e = "count" THEN
            LET N == [k \in Keys(A) |-> Mass(A, k, 1, 0)] IN
            [r \in {<<k, N[k]>> : k \in {x \in Keys(A) : N[x] # 0}} |-> 1]
        ELSE IF e = "distinct" THEN
            LET R == A \o B IN [r \in Residues |-> SumOver(LAMBDA k : Present(R, k, r[1], r[2]), Keys(R))]
        ELSE [r \in Residues |-> SumOver(LAMBDA k : Mass(A, k, 6, Six(r[1], r[2])), Keys(A))]
(* What output o accumulates to at t.                                        *)
Accum(o, t) ==
    LET S == {x \in DOMAIN outs[o] : Leq(x[2], t)} IN
    [r \in {x[1] : x \in S} |-> SumOver(LAMBDA x : outs[o][x], {x \in S : x[1] = r})]
SameBag(f, g) == \A r \in DOMAIN f \cup DOMAIN g :
    (IF r \in DOMAIN f THEN f[r] ELSE 0) = (IF r \in DOMAIN g THEN g[r] ELSE 0)

Logical(p) == ((p - 1) % 2) + 1
Uses(e) == IF e \in {"join", "arranged", "distinct"} THEN {1, 2} ELSE {1}
Feeds(i) == {p \in DOMAIN infr : Logical(p) = i}

Feed(p, runs) ==
    /\ \A j \in DOMAIN runs : Beyond(infr[p], runs[j][4])
    /\ ins' = [ins EXCEPT ![Logical(p)] = @ \o runs]
    /\ UNCHANGED <<infr, outs, outfr>>
Promise(p, f) ==
    /\ FLeq(infr[p], f)
    /\ infr' = [infr EXCEPT ![p] = f]
    /\ UNCHANGED <<ins, outs, outfr>>
Complete(o, t) == \E w \in DOMAIN outfr[o] : ~Beyond(outfr[o][w], t)
Emit(o, ups) ==
    /\ \A j \in DOMAIN ups : ~Complete(o, ups[j][2])
    /\ outs' = [outs EXCEPT ![o] =
         LET new == {<<ups[j][1], ups[j][2]>> : j \in DOMAIN ups} IN
         [x \in DOMAIN @ \cup new |->
             (IF x \in DOMAIN @ THEN @[x] ELSE 0) + SumSeq(LAMBDA u : IF <<u[1], u[2]>> = x THEN u[3] ELSE 0, ups)]]
    /\ UNCHANGED <<ins, infr, outfr>>
Settled(e, t) == \A i \in Uses(e) : \A p \in Feeds(i) : ~Beyond(infr[p], t)
Advance(e, o, w, f, dom) ==
    /\ FLeq(outfr[o][w], f)
    /\ \A t \in dom : (~Beyond(f, t) /\ ~Complete(o, t)) => Settled(e, t) /\ SameBag(Accum(o, t), Denote(e, t))
    /\ outfr' = [outfr EXCEPT ![o][w] = f]
    /\ UNCHANGED <<ins, infr, outs>>
(* Once every input is closed everything completes, however much there is to do. *)
Finished(es) ==
    /\ \A p \in DOMAIN infr : infr[p] = {}
    /\ \A o \in DOMAIN outfr : \A w \in DOMAIN outfr[o] : outfr[o][w] = {}
============================================================================
