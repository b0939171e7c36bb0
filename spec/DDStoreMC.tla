----------------------------- MODULE DDStoreMC -----------------------------
(* A store of batches that realises DDTrace: batches are appended, adjacent  *)
(* batches that no handle may still cut between are merged, and times are    *)
(* advanced by what every handle has given up.  Checked exhaustively within  *)
(* small bounds: such a store always satisfies StoreOk, and every read a     *)
(* handle is entitled to is correct.                                         *)
EXTENDS DDTrace

CONSTANTS Dim, MaxT, MaxUps, MaxBatches, MaxHandles
VARIABLE store
mcVars == <<src, infr, supper, tupper, bounds, holds, imps, store>>

AllT == [1 .. Dim -> 0 .. MaxT]
Zero == [j \in 1 .. Dim |-> 0]
Fronts == {F \in SUBSET AllT : IsAntichain(F)}
Row == <<0, 0>>

Init == TraceInit(Zero) /\ store = << >>

(* The merged contents of a sequence of updates, sorted.                      *)
Compact(ups) ==
    LET b == UpdBag(ups)
    IN SetToSortSeq({<<x[1], x[2], b[x]>> : x \in DOMAIN b}, LAMBDA a, c : RowLt(a[1], c[1]) \/ (a[1] = c[1] /\ LexLt(a[2], c[2])))

LogMeet == MinElems(UNION {holds[h].log : h \in DOMAIN holds})
PhyMeet == MinElems(UNION {holds[h].phy : h \in DOMAIN holds})

(* A new batch of up to two updates in [tupper, up).                          *)
Ingest == \E up \in Fronts :
    /\ Len(store) < MaxBatches /\ FLeq(tupper, up) /\ tupper # up
    /\ LET ts == {t \in AllT : Within(tupper, up, t)} IN
       \E S \in SUBSET ts : \E d \in {1, -1} :
          /\ Cardinality(S) + Len(src) <= MaxUps
          /\ LET ups == SetToSeq({<<Row, t, d>> : t \in S}) IN
             /\ Insert(tupper, up, ups)
             /\ store' = Append(store, [lower |-> tupper, upper |-> up, since |-> {Zero}, content |-> Compact(ups), len |-> Len(Compact(ups))])
MergeAt == \E j \in 1 .. Len(store) - 1 :
    LET a == store[j]  b == store[j + 1]
        F == FJoin(FJoin(a.since, b.since), LogMeet)
        c == Compact(RepSeq(a.content \o b.content, F))
    IN /\ FLeq(b.upper, PhyMeet)
       /\ LogMeet # {}
       /\ store' = [x \in 1 .. Len(store) - 1 |-> IF x < j THEN store[x] ELSE IF x > j THEN store[x + 1]
                    ELSE [lower |-> a.lower, upper |-> b.upper, since |-> F, content |-> c, len |-> Len(c)]]
       /\ UNCHANGED traceVars
CloneH == \E h \in DOMAIN holds : /\ Cardinality(DOMAIN holds) < MaxHandles
                                  /\ \E n \in 0 .. MaxHandles - 1 : Clone(n, h)
                                  /\ UNCHANGED store
DropH == \E h \in DOMAIN holds : Cardinality(DOMAIN holds) > 1 /\ Drop(h) /\ UNCHANGED store
LogH == \E h \in DOMAIN holds : \E F \in Fronts \ {{}} : F # holds[h].log /\ FLeq(holds[h].log, F) /\ Logical(h, F, F) /\ UNCHANGED store
PhyH == \E h \in DOMAIN holds : \E F \in Fronts : F # holds[h].phy /\ FLeq(holds[h].phy, F) /\ Physical(h, F, F) /\ UNCHANGED store
Next == Ingest \/ MergeAt \/ CloneH \/ DropH \/ LogH \/ PhyH
Spec == Init /\ [][Next]_mcVars

StoreInv == StoreOk(store, tupper)
(* What a handle reads at a cut: the batches below it.                        *)
ReadOf(cut) == FlattenSeq([j \in DOMAIN store |-> IF cut = {} \/ FLeq(store[j].upper, cut) THEN store[j].content ELSE << >>])
Straddles(cut) == \E j \in DOMAIN store : ~FLeq(store[j].upper, cut) /\ ~FLeq(cut, store[j].lower)
ReadInv == \A h \in DOMAIN holds : \A cut \in bounds \cup {{}} :
    FLeq(holds[h].phy, cut) => /\ ~Straddles(cut)
                               /\ SameFrom(holds[h].log, ReadOf(cut), SelectSeq(src, LAMBDA u : ~Beyond(cut, u[2])))
(* Nothing is ever told apart once given up, and nothing given up is needed:  *)
(* two handles agree on every time beyond both.                               *)
Agree == \A h, g \in DOMAIN holds : SameFrom(FJoin(holds[h].log, holds[g].log), ReadOf({}), src)
============================================================================
