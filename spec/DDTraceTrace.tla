---------------------------- MODULE DDTraceTrace ---------------------------
(* Checks recorded lives of real arrangements against DDTrace.               *)
EXTENDS DDTrace, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
vars == <<src, infr, supper, tupper, bounds, holds, imps, tid, i>>
Tr == Traces[tid]
Init == /\ tid \in DOMAIN Traces /\ i = 1 /\ TraceInit([j \in 1 .. Tr.dim |-> 0])
Ev == Tr.ev[i]
Consume(op) == /\ i <= Len(Tr.ev) /\ Ev[1] = op /\ i' = i + 1 /\ tid' = tid
Sets(s) == [j \in DOMAIN s |-> ToSet(s[j])]
Desc(d) == [lower |-> ToSet(d[1]), upper |-> ToSet(d[2]), since |-> ToSet(d[3]), len |-> d[4], content |-> d[5]]
Next ==
    \/ Consume("in")     /\ Feed(Ev[2])
    \/ Consume("adv")    /\ Promise(ToSet(Ev[2]))
    \/ Consume("batch")  /\ Batch(ToSet(Ev[2]), ToSet(Ev[3]), ToSet(Ev[4]), Ev[5], Ev[6], Ev[7], Sets(Ev[8]))
    \/ Consume("insert") /\ Insert(ToSet(Ev[2]), ToSet(Ev[3]), Ev[4])
    \/ Consume("clone")  /\ Clone(Ev[2], Ev[3])
    \/ Consume("drop")   /\ Drop(Ev[2])
    \/ Consume("log")    /\ Logical(Ev[2], ToSet(Ev[3]), ToSet(Ev[4]))
    \/ Consume("phy")    /\ Physical(Ev[2], ToSet(Ev[3]), ToSet(Ev[4]))
    \/ Consume("read")   /\ Read(Ev[2], ToSet(Ev[3]), ToSet(Ev[4]), Ev[5], Ev[6])
    \/ Consume("store")  /\ Store([j \in DOMAIN Ev[2] |-> Desc(Ev[2][j])], ToSet(Ev[3]))
    \/ Consume("imp")    /\ Import(Ev[2], Ev[3], Ev[4], ToSet(Ev[5]), ToSet(Ev[6]), [j \in 1 .. Tr.dim |-> 0])
    \/ Consume("ib")     /\ ImportBatch(Ev[2], ToSet(Ev[3]), ToSet(Ev[4]), ToSet(Ev[5]), Ev[6], Ev[7])
    \/ Consume("if")     /\ ImportFrontier(Ev[2], ToSet(Ev[3]))
    \/ Consume("limread") /\ LimitedRead(Ev[2], ToSet(Ev[3]), Ev[4], Ev[5])
    \/ Consume("shut")   /\ Shutdown(Ev[2])
    \/ Consume("quiet")  /\ Settled(Sets(Ev[2]))
    \/ Consume("advup")  /\ AdvanceUpper(ToSet(Ev[2]), ToSet(Ev[3]))
    \/ Consume("shape")  /\ Shape(Ev[2], Ev[3])
    \/ Consume("forced") /\ Forced(Ev[2], Ev[3])
    \/ Consume("merged") /\ Merged([j \in DOMAIN Ev[2] |-> [upper |-> ToSet(Ev[2][j][1]), len |-> Ev[2][j][2]]])
    \/ Consume("logged") /\ Logged(Ev[2], Ev[3])
    \/ i > Len(Tr.ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
============================================================================
