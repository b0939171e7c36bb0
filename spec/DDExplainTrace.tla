--------------------------- MODULE DDExplainTrace ---------------------------
(* Checks recorded explanations against DDExplain. Each event stands alone:   *)
(*   ["demand", program, inputs, asked, demanded, positive]                   *)
(*   ["clone", program, inputs, rows]                                         *)
EXTENDS DDExplain, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
vars == <<tid, i>>
Tr == Traces[tid]
Init == tid \in DOMAIN Traces /\ i = 1
Ev == Tr.ev[i]
Consume(op) == /\ i <= Len(Tr.ev) /\ Ev[1] = op /\ i' = i + 1 /\ tid' = tid
Bags(xs) == [j \in DOMAIN xs |-> BagOf(xs[j])]
Next ==
    \/ /\ Consume("demand")
       /\ LET prog == Ev[2]
              inputs == TLCEval(Bags(Ev[3]))
              Q == ToSet(Ev[4])
              D == [j \in DOMAIN Ev[5] |-> {x[1] : x \in ToSet(Ev[5][j])}]
          IN /\ \A j \in DOMAIN Ev[5] : Cardinality(D[j]) = Len(Ev[5][j]) /\ \A x \in ToSet(Ev[5][j]) : x[2] = 1
             /\ Grounded(inputs, D)
             /\ Sufficient(prog, "o0", inputs, Q, D)
             /\ Ev[6] => Relevant(prog, "o0", inputs, Q, D)
    \/ /\ Consume("clone")
       /\ BagOf(Ev[4]) = IMeaning(Ev[2], "o0", XSrc(Bags(Ev[3])))
    \/ i > Len(Tr.ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
============================================================================
