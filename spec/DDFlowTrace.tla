---------------------------- MODULE DDFlowTrace ----------------------------
(* Checks recorded executions of real dataflows against DDFlow.             *)
(* Every trace is one initial state; a trace the specification cannot       *)
(* follow to its end is reported by TLC as a deadlock at the offending event.*)
EXTENDS DDFlow, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
vars == <<ins, infr, outs, outfr, tid, i>>
Tr == Traces[tid]
Dom == ToSet(Tr.times)
Zero(n) == [j \in 1 .. n |-> 0]

Init ==
    /\ tid \in DOMAIN Traces
    /\ i = 1
    /\ FlowInit(Tr.nin, Tr.nin * Tr.nw, Len(Tr.prog), Tr.nw, Zero(Tr.dim))

Ev == Tr.ev[i]
Consume(op) == /\ i <= Len(Tr.ev) /\ Ev[1] = op /\ i' = i + 1 /\ tid' = tid
TFeed    == Consume("in")  /\ Feed(Ev[2] + 1, Ev[3])
TPromise == Consume("adv") /\ Promise(Ev[2] + 1, ToSet(Ev[3]))
TEmit    == Consume("out") /\ Emit(Ev[2] + 1, Ev[3])
TAdvance == Consume("fr")  /\ Advance(Tr.prog[Ev[2] + 1], Ev[2] + 1, Ev[3] + 1, ToSet(Ev[4]), Dom)
TCall    == Consume("call") /\ Call(Tr.prog[Ev[2] + 1], Ev[3], Ev[4], Dom)
TQuiet   == Consume("quiet") /\ Quiet(Tr.prog, Dom)
TEnd     == /\ Consume("end") /\ Finished(Tr.prog, Dom) /\ UNCHANGED flowVars
            /\ \A o \in DOMAIN outs : Tr.canon[o] => Canonical(outs[o])
Done     == i > Len(Tr.ev) /\ UNCHANGED vars
Next == TFeed \/ TPromise \/ TEmit \/ TAdvance \/ TCall \/ TQuiet \/ TEnd \/ Done
Spec == Init /\ [][Next]_vars
============================================================================
