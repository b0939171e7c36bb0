--------------------------- MODULE DDServerTrace ---------------------------
(* Checks recorded sessions with servers against DDServer.                    *)
EXTENDS DDServer, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
vars == <<epoch, progs, tid, i>>
Tr == Traces[tid]
Init == tid \in DOMAIN Traces /\ i = 1 /\ SrvInit
Ev == Tr.ev[i]
Consume(op) == /\ i <= Len(Tr.ev) /\ Ev[1] = op /\ i' = i + 1 /\ tid' = tid
(* The answer is whether the command was possible, in which case it happens.  *)
Answer(can, ok, Do) == /\ ok = can /\ IF can THEN Do ELSE UNCHANGED srvVars
Next ==
    \/ Consume("install") /\ Answer(CanInstall(Ev[2], Ev[3]), Ev[4], Install(Ev[2], Ev[3]))
    \/ Consume("feed")    /\ Answer(CanFeed(Ev[2], Ev[3], Ev[5]), Ev[7], Feed(Ev[2], Ev[3], Ev[4], Ev[5], Ev[6]))
    \/ Consume("drop")    /\ Answer(CanDrop(Ev[2]), Ev[3], Drop(Ev[2]))
    \/ Consume("tick")    /\ Tick
    \/ Consume("peek")    /\ Answer(Ev[2] \in Published(progs), Ev[4], BagOf(Ev[5]) = Peek(Ev[2], Ev[3]) /\ UNCHANGED srvVars)
    \/ Consume("list")    /\ /\ Listing = [epoch |-> Ev[2], traces |-> ToSet(Ev[3]),
                                           programs |-> {<<x[1], x[2], ToSet(x[3]), ToSet(x[4]), ToSet(x[5])>> : x \in ToSet(Ev[4])}]
                             /\ UNCHANGED srvVars
    \/ i > Len(Tr.ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
============================================================================
