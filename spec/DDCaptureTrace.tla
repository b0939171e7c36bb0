--------------------------- MODULE DDCaptureTrace --------------------------
(* Checks recorded captures and replays of collections against DDCapture.    *)
EXTENDS DDCapture, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
vars == <<given, infr, written, stated, gotU, gotP, rep, repfr, tid, i>>
Tr == Traces[tid]
Zero == [j \in 1 .. Tr.dim |-> 0]
Init == /\ tid \in DOMAIN Traces /\ i = 1 /\ CapInit(Tr.nw, Tr.nr, Zero)
Ev == Tr.ev[i]
Consume(op) == /\ i <= Len(Tr.ev) /\ Ev[1] = op /\ i' = i + 1 /\ tid' = tid
Next ==
    \/ Consume("in")     /\ Give(Ev[2] + 1, Ev[3])
    \/ Consume("adv")    /\ Promise(Ev[2] + 1, ToSet(Ev[3]))
    \/ Consume("wu")     /\ WriteUpdates(Ev[2])
    \/ Consume("wp")     /\ WriteProgress(ToSet(Ev[2]), ToSet(Ev[3]), Ev[4])
    \/ Consume("wend")   /\ WriterDone
    \/ Consume("ru")     /\ ReceiveUpdates(Ev[2])
    \/ Consume("rp")     /\ ReceiveProgress(ToSet(Ev[2]), ToSet(Ev[3]), Ev[4])
    \/ Consume("out")    /\ Report(Ev[2])
    \/ Consume("fr")     /\ Complete(Ev[2] + 1, ToSet(Ev[3]), Zero)
    \/ Consume("rest")   /\ ReaderRested(Zero, {w + 1 : w \in ToSet(Ev[2])})
    \/ Consume("again")  /\ Restart(Zero)
    \/ i > Len(Tr.ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
============================================================================
