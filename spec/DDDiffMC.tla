------------------------------ MODULE DDDiffMC -----------------------------
(* The laws of DDDiff for all small values of a family of types, and the      *)
(* in-place consolidation algorithm for all short sequences.                  *)
EXTENDS DDDiff
CONSTANTS N, L
I == <<"int", -N, N>>
W == <<"wrap", -2, 1>>
P == <<"present">>
RECURSIVE Vals(_)
Vals(ty) == CASE ty[1] \in {"int", "wrap"} -> ty[2] .. ty[3]
              [] ty[1] = "present" -> {1}
              [] ty[1] = "tuple" -> IF Len(ty[2]) = 0 THEN {<< >>} ELSE {<<x, y>> : x \in Vals(ty[2][1]), y \in Vals(ty[2][2])}
              [] ty[1] = "vec" -> UNION {[1 .. k -> Vals(ty[2])] : k \in 0 .. 2}
Types == {I, W, P, <<"tuple", << >>>>, <<"tuple", <<I, W>>>>, <<"tuple", <<P, I>>>>, <<"vec", <<"int", -1, 1>>>>, <<"vec", W>>}
Muls == {I, P}

VARIABLES ty, ab, seq, st
vars == <<ty, ab, seq, st>>
(* The algorithm: sort, then sum runs while writing the non-zero sums to the front. *)
Sort(s) == SortSeq(s, LAMBDA x, y : SeqCmp(x[1], y[1], 1) = -1)
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Idle == [i |-> 0]
Init == /\ ty \in Types /\ ab = << >> /\ st = Idle
        /\ seq \in IF ty \in {I, W} THEN UNION {[1 .. k -> {<<k2>> : k2 \in 0 .. 1} \X {-1, 0, 1}] : k \in 0 .. L} ELSE {<< >>}
Pick == Len(ab) < 2 /\ seq = << >> /\ ab' \in {Append(ab, x) : x \in Vals(ty)} /\ UNCHANGED <<ty, seq, st>>
Begin == /\ seq # << >> /\ st = Idle
         /\ LET s == Sort(seq) IN st' = [i |-> 2, off |-> 1, acc |-> s[1][2], s |-> s]
         /\ UNCHANGED <<ty, ab, seq>>
Flush(x, src) == IF DIsZero(ty, x.acc) THEN x
                 ELSE LET s == Swap(x.s, x.off, src) IN [x EXCEPT !.s = [s EXCEPT ![x.off][2] = x.acc], !.off = x.off + 1]
Step == /\ seq # << >> /\ st # Idle /\ st.i <= Len(seq)
        /\ st' = IF st.s[st.i][1] = st.s[st.i - 1][1]
                 THEN [st EXCEPT !.i = st.i + 1, !.acc = DPlus(ty, st.acc, st.s[st.i][2])]
                 ELSE LET f == Flush(st, st.i - 1) IN [f EXCEPT !.acc = f.s[st.i][2], !.i = st.i + 1]
        /\ UNCHANGED <<ty, ab, seq>>
Next == Pick \/ Begin \/ Step
Spec == Init /\ [][Next]_vars

Algebra == Len(ab) = 2 => \A c \in Vals(ty) : /\ DLaws(ty, ab[1], ab[2], c)
                                              /\ \A rt \in Muls : \A r, s \in Vals(rt) : (ty[1] # "wrap" \/ rt = I) => DMulLaws(ty, ab[1], ab[2], rt, r, s)
Result == LET f == Flush(st, Len(seq)) IN SubSeq(f.s, 1, f.off - 1)
InPlace == st # Idle /\ st.i > Len(seq) => Consolidated(ty, seq, Result)
============================================================================
