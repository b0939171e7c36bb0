---------------------------- MODULE DDCaptureMC ----------------------------
(* The de-duplicating, re-ordering reader as an algorithm, step by step: it   *)
(* keeps the updates and counts that are not yet settled, and a queue of the  *)
(* statements it cannot use yet.  Checked against DDCapture: every message    *)
(* sequence leads it to report what, and as far as, the messages imply.       *)
EXTENDS DDCapture, Json
CONSTANTS Dim, MaxT, MaxGiven, MaxMsgs, Sim
VARIABLES ups,     \* updates held
          pfr,     \* how far statements were incorporated
          counts,  \* outstanding counts by time
          queue,   \* statements waiting
          rfr,     \* frontier reported
          hist
mcVars == <<given, infr, written, stated, gotU, gotP, rep, repfr, ups, pfr, counts, queue, rfr, hist>>

(* When simulating, one choice is enough.                                     *)
Some(S) == IF Sim /\ Len(hist) >= 0 THEN {RandomElement(S)} ELSE S
Grid == [1 .. Dim -> 0 .. MaxT]
Zero == [j \in 1 .. Dim |-> 0]
Fronts == {F \in SUBSET Grid : IsAntichain(F)}
Intervals == {p \in Fronts \X Fronts : FLeq(p[1], p[2]) /\ p[1] # p[2]}
Rows == {<<0, 0>>, <<0, 1>>}
Truths == {G \in SUBSET {<<r, t, 1>> : r \in Rows, t \in Grid} : Cardinality(G) <= MaxGiven}
Init ==
    /\ CapInit(1, 1, Zero)
    /\ ups = {} /\ pfr = {Zero} /\ counts = [t \in Grid |-> 0] /\ queue = {} /\ rfr = {Zero} /\ hist = << >>
(* The collection is fixed first.                                              *)
Choose == /\ hist = << >>
          /\ \E G \in Some(Truths) : given' = G
          /\ hist' = << <<"given", SetToSeq(given')>> >>
          /\ UNCHANGED <<infr, written, stated, gotU, gotP, rep, repfr, ups, pfr, counts, queue, rfr>>
CountsOf(lo, up) == [t \in {s \in GivenTimes : Within(lo, up, s)} |-> Cardinality(At(t))]
(* Incorporate statements until none is actionable: (frontier, counts, queue). *)
RECURSIVE Incorporate(_, _, _)
Incorporate(F, c, Q) ==
    LET A == {p \in Q : FLeq(p[1], F)} IN
    IF A = {} THEN <<F, c, Q>>
    ELSE LET p == CHOOSE p \in A : TRUE
             k == CountsOf(p[1], p[2])
             c2 == [t \in Grid |-> c[t] + IF t \in DOMAIN k /\ Beyond(F, t) THEN k[t] ELSE 0]
             G == FJoin(F, p[2])
         IN CHOOSE r \in {Incorporate(x[1], x[2], {q \in Q \ {p} : ~FLeq(q[2], x[1])}) : x \in {<<G, c2>>}} : TRUE
Conclude(u, F, c, Q) ==
    LET low == MinElems(F \cup {t \in Grid : c[t] > 0})
        pub == {x \in u : ~Beyond(low, x[2])}
    IN /\ ups' = TLCEval(u \ (IF low = rfr THEN {} ELSE pub)) /\ pfr' = F /\ counts' = TLCEval(c) /\ queue' = TLCEval(Q) /\ rfr' = low
       /\ rep' = TLCEval(IF low = rfr THEN rep ELSE rep \cup pub)
       /\ repfr' = [repfr EXCEPT ![1] = low]
Recv(m) == Len(hist) <= MaxMsgs /\ hist # << >> /\ hist' = Append(hist, m)
RecvUpdates == given # {} /\
    \E M \in Some((SUBSET given) \ {{}}) :
        /\ Recv(<<"ru", SetToSeq(M)>>)
        /\ gotU' = gotU \cup M
        /\ LET new == {x \in M : Beyond(rfr, x[2])} \ ups
               c2 == [t \in Grid |-> counts[t] - Cardinality({x \in new : x[2] = t})]
               r == Incorporate(pfr, c2, queue)
           IN Conclude(ups \cup new, r[1], r[2], r[3])
        /\ UNCHANGED <<given, infr, written, stated, gotP>>
RecvProgress ==
    \E p \in Some(Intervals) : LET lo == p[1] up == p[2] IN
        /\ LET k == CountsOf(lo, up) s == SetToSeq(DOMAIN k)
           IN Recv(<<"rp", SetToSeq(lo), SetToSeq(up), [j \in DOMAIN s |-> <<s[j], k[s[j]]>>]>>)
        /\ gotP' = gotP \cup {<<lo, up>>}
        /\ LET r == Incorporate(pfr, counts, queue \cup {<<lo, up>>})
           IN Conclude(ups, r[1], r[2], r[3])
        /\ UNCHANGED <<given, infr, written, stated, gotU>>
Next == Choose \/ RecvUpdates \/ RecvProgress
Spec == Init /\ [][Next]_mcVars
View == <<given, gotU, gotP, rep, repfr, ups, pfr, counts, queue, rfr, Len(hist)>>
(* The algorithm refines the reader of DDCapture.                              *)
Exact == repfr[1] = Known(gotU, gotP, Zero) /\ rep = {u \in given : ~Beyond(repfr[1], u[2])}
Held == /\ \A x \in ups : Beyond(rfr, x[2])
        /\ \A t \in Grid : counts[t] # 0 => Beyond(rfr, t)
Refines == [][hist = << >> \/ (FLeq(repfr[1], repfr'[1]) /\ rep \subseteq rep' /\ \A u \in rep' \ rep : Beyond(repfr[1], u[2]))]_mcVars
Emitted == IF Len(hist) > MaxMsgs THEN PrintT("SCHED " \o ToJson(hist)) ELSE TRUE
============================================================================
