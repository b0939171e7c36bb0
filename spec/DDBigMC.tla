------------------------------ MODULE DDBigMC ------------------------------
(* That the account DDBig keeps, by runs and residues, is the account of the *)
(* individual records: checked for every small choice of runs.               *)
EXTENDS DDBig
CONSTANTS MaxRuns
VARIABLES at
Runs == {<<k, lo, n, <<t>>, d>> : k \in 0 .. 1, lo \in {0, 1, 4}, n \in {1, 3, 7}, t \in 0 .. 1, d \in {-1, 2}}
Init == BigInit(1, 0, <<0>>) /\ at \in {<<0>>, <<1>>}
Next == \E p \in 1 .. 2, s \in Runs : Len(ins[1]) + Len(ins[2]) < MaxRuns /\ Len(ins[p]) < 2 /\ Feed(p, <<s>>) /\ UNCHANGED at
Spec == Init /\ [][Next]_<<bigVars, at>>
Vals == 0 .. 11
One(i, k, v) == Mult(UpTo(i, at), k, v)
JoinOf(i, j, r) == SumOver(LAMBDA x : IF x[2] % 2 = r[1] /\ x[3] % 3 = r[2] THEN One(i, x[1], x[2]) * One(j, x[1], x[3]) ELSE 0, (0 .. 1) \X Vals \X Vals)
JoinRight == \A r \in Residues : Denote("join", at)[r] = JoinOf(1, 2, r) /\ Denote("self", at)[r] = JoinOf(1, 1, r)
Both(k, v) == One(1, k, v) + One(2, k, v)
DistinctRight == \A r \in Residues : Denote("distinct", at)[r] = Cardinality({x \in (0 .. 1) \X Vals : Both(x[1], x[2]) # 0 /\ x[2] % 2 = r[1] /\ x[2] % 3 = r[2]})
ThruRight == \A r \in Residues : Denote("thru", at)[r] = SumOver(LAMBDA x : IF x[2] % 2 = r[1] /\ x[2] % 3 = r[2] THEN One(1, x[1], x[2]) ELSE 0, (0 .. 1) \X Vals)
CountRight == \A k \in 0 .. 1 : LET n == SumOver(LAMBDA v : One(1, k, v), Vals) IN
    {r \in DOMAIN Denote("count", at) : r[1] = k} = IF n = 0 THEN {} ELSE {<<k, n>>}
Right == JoinRight /\ DistinctRight /\ ThruRight /\ CountRight
============================================================================
