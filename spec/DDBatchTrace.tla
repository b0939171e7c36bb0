---------------------------- MODULE DDBatchTrace ---------------------------
(* Checks recorded lives of real batchers, batches, chunks and cursors.      *)
EXTENDS DDBatch, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
vars == <<held, lowerb, sealed, batches, curs, tid, i, traceVars>>
Tr == Traces[tid]
Init == /\ tid \in DOMAIN Traces /\ i = 1 /\ BatchInit([j \in 1 .. Tr.dim |-> 0]) /\ TraceInit([j \in 1 .. Tr.dim |-> 0])
Ev == Tr.ev[i]
Consume(op) == /\ i <= Len(Tr.ev) /\ Ev[1] = op /\ i' = i + 1 /\ tid' = tid /\ UNCHANGED traceVars
S(x) == ToSet(x)
W(w) == IF w[1] = "limit" THEN <<"limit", S(w[2]), S(w[3])>> ELSE w
Next ==
    \/ Consume("push")   /\ Push(Ev[2])
    \/ Consume("seal")   /\ Seal(S(Ev[2]), S(Ev[3]), S(Ev[4]), S(Ev[5]), Ev[6], Ev[7], S(Ev[8]))
    \/ Consume("make")   /\ Make(Ev[2], Ev[3], S(Ev[4]), S(Ev[5]), S(Ev[6]), S(Ev[7]), S(Ev[8]), S(Ev[9]), Ev[10], Ev[11])
    \/ Consume("build")  /\ Build(Ev[2], S(Ev[3]), S(Ev[4]), S(Ev[5]), S(Ev[6]), S(Ev[7]), S(Ev[8]), Ev[9], Ev[10])
    \/ Consume("merge")  /\ MergedIs(Ev[2], Ev[3], Ev[4], S(Ev[5]), S(Ev[6]), S(Ev[7]), S(Ev[8]), Ev[9], Ev[10])
    \/ Consume("again")  /\ Again(Ev[2], Ev[3], Ev[4])
    \/ Consume("cm")     /\ ChunkMerge(Ev[2], Ev[3], Ev[4], Ev[5], Ev[6])
    \/ Consume("cx")     /\ ChunkExtract(Ev[2], S(Ev[3]), S(Ev[4]), Ev[5], Ev[6], Ev[7], S(Ev[8]))
    \/ Consume("ca")     /\ ChunkAdvance(Ev[2], S(Ev[3]), Ev[4], Ev[5], Ev[6])
    \/ Consume("cs")     /\ ChunkSettle(Ev[2], Ev[3], Ev[4], Ev[5], Ev[6], Ev[7])
    \/ Consume("open")   /\ Open(Ev[2], Ev[3], W(Ev[4]))
    \/ Consume("cur")    /\ Move(Ev[2], Ev[3], Ev[4], Ev[5], Ev[6], Ev[7])
    \/ i > Len(Tr.ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
============================================================================
