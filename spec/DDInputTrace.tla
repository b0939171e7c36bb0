---------------------------- MODULE DDInputTrace ---------------------------
(* Checks recorded histories of input sessions against DDInput.              *)
EXTENDS DDInput, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
vars == <<time, told, open, loose, fed, given, seen, front, tid, i>>
Tr == Traces[tid]
Init == /\ tid \in DOMAIN Traces /\ i = 1 /\ InInit(Tr.ns, Tr.nc, Tr.nw, <<0>>)
Ev == Tr.ev[i]
Consume(op) == /\ i <= Len(Tr.ev) /\ Ev[1] = op /\ i' = i + 1 /\ tid' = tid
Next ==
    \/ Consume("attach") /\ Attach(Ev[2] + 1, Ev[3] + 1)
    \/ Consume("init")   /\ Initial(Ev[2] + 1, Ev[3])
    \/ Consume("upd")    /\ Supply(Ev[2] + 1, Ev[3], Ev[4], Ev[5])
    \/ Consume("now")    /\ Supply(Ev[2] + 1, Ev[3], time[Ev[2] + 1], Ev[4])
    \/ Consume("adv")    /\ Advance(Ev[2] + 1, Ev[3])
    \/ Consume("refused") /\ Refused(Ev[2] + 1, Ev[3])
    \/ Consume("time")   /\ TimeIs(Ev[2] + 1, Ev[3])
    \/ Consume("flush")  /\ Flush(Ev[2] + 1)
    \/ Consume("close")  /\ Close(Ev[2] + 1)
    \/ Consume("out")    /\ Appear(Ev[2] + 1, Ev[3])
    \/ Consume("fr")     /\ Passed(Ev[2] + 1, Ev[3] + 1, ToSet(Ev[4]))
    \/ Consume("quiet")  /\ Quiet({c + 1 : c \in ToSet(Ev[2])})
    \/ i > Len(Tr.ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
============================================================================
