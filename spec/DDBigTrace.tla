----------------------------- MODULE DDBigTrace -----------------------------
(* Checks recorded executions of large dataflows against DDBig.             *)
EXTENDS DDBig, Json, IOUtils, TLC, SequencesExt

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
vars == <<ins, infr, outs, outfr, tid, i>>
Tr == Traces[tid]
Dom == ToSet(Tr.times)

Init ==
    /\ tid \in DOMAIN Traces
    /\ i = 1
    /\ BigInit(Tr.nw, Len(Tr.prog), [j \in 1 .. Tr.dim |-> 0])

Ev == Tr.ev[i]
Consume(op) == /\ i <= Len(Tr.ev) /\ Ev[1] = op /\ i' = i + 1 /\ tid' = tid
TFeed    == Consume("in")  /\ Feed(Ev[2] + 1, Ev[3])
TPromise == Consume("adv") /\ Promise(Ev[2] + 1, ToSet(Ev[3]))
TEmit    == Consume("out") /\ Emit(Ev[2] + 1, Ev[3])
TAdvance == Consume("fr")  /\ Advance(Tr.prog[Ev[2] + 1], Ev[2] + 1, Ev[3] + 1, ToSet(Ev[4]), Dom)
TEnd     == Consume("end") /\ Finished(Tr.prog) /\ UNCHANGED bigVars
Done     == i > Len(Tr.ev) /\ UNCHANGED vars
Next == TFeed \/ TPromise \/ TEmit \/ TAdvance \/ TEnd \/ Done
Spec == Init /\ [][Next]_vars
============================================================================
