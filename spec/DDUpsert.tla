----------------------------- MODULE DDUpsert ------------------------------
(* The operator that maintains an arrangement from upserts, step by step:     *)
(* upserts wait in a queue under one held capability until the input frontier *)
(* passes them, and are then turned into corrections of the latest value of   *)
(* their key.  Times are 0 .. MaxTime, value 0 stands for removal.            *)
(* Checked against the meaning of upserts, Upsert in DDProg.                  *)
EXTENDS DDProg
CONSTANTS MaxTime, Keys, Vals, MaxUps
VARIABLES given,   \* all upserts: sequence of <<<<k, v>>, <<t>>, 1>>
          fr,      \* input frontier: MaxTime + 1 when closed
          chan,    \* upserts sent but not received, with the time of their message
          queue,   \* upserts waiting
          cap,     \* the held capability, or -1
          prev,    \* upper bound of what was produced
          out      \* the corrections produced
vars == <<given, fr, chan, queue, cap, prev, out>>
None == -1
Init == given = << >> /\ fr = 0 /\ chan = {} /\ queue = {} /\ cap = None /\ prev = 0 /\ out = << >>
Send == /\ Len(given) < MaxUps
        /\ \E t \in fr .. MaxTime, c \in fr .. MaxTime, k \in 0 .. Keys - 1, v \in 0 .. Vals :
              /\ c <= t
              /\ given' = Append(given, <<<<k, v>>, <<t>>, 1>>)
              /\ chan' = chan \cup {<<t, k, v, c, Len(given)>>}
        /\ UNCHANGED <<fr, queue, cap, prev, out>>
Promise == fr <= MaxTime /\ fr' \in fr + 1 .. MaxTime + 1 /\ UNCHANGED <<given, chan, queue, cap, prev, out>>

(* What the arrangement holds for a key.                                       *)
Holds(o, k) == LET V == {x[2] : x \in {y \in DOMAIN AccIf(o, LAMBDA s : TRUE) : y[1] = k}} IN IF V = {} THEN 0 ELSE SetMax(V)
(* The corrections for the upserts Q (all at complete times) to key k.         *)
RECURSIVE Replay(_, _, _, _)
Replay(Q, k, ts, last) ==
    IF ts = {} THEN << >>
    ELSE LET t == SetMin(ts) v == SetMax({q[3] : q \in {x \in Q : x[1] = t /\ x[2] = k}})
             minus == IF last = v \/ last = 0 THEN << >> ELSE << <<<<k, last>>, <<t>>, -1>> >>
             plus  == IF last = v \/ v = 0 THEN << >> ELSE << <<<<k, v>>, <<t>>, 1>> >>
         IN minus \o plus \o Replay(Q, k, ts \ {t}, v)
RECURSIVE ReplayKeys(_, _, _)
ReplayKeys(Q, K, o) == IF K = {} THEN << >> ELSE LET k == SetMin(K) IN Replay(Q, k, {q[1] : q \in {x \in Q : x[2] = k}}, Holds(o, k)) \o ReplayKeys(Q, K \ {k}, o)
(* An invocation sees some input frontier f and all messages that could       *)
(* otherwise come before it.                                                  *)
Work == \E f \in prev .. fr, M \in SUBSET chan :
    /\ \A m \in chan \ M : m[4] >= f
    /\ chan' = chan \ M
    /\ LET q == queue \cup {<<m[1], m[2], m[3]>> : m \in M}
           held == {m[4] : m \in M} \cup (IF cap = None THEN {} ELSE {cap})
           c == IF held = {} THEN None ELSE SetMin(held)
           ready == {x \in q : x[1] < f}
           rest == q \ ready
       IN IF f > prev /\ c # None /\ c < f
          THEN /\ out' = out \o ReplayKeys(ready, {x[2] : x \in ready}, out)
               /\ queue' = rest
               /\ cap' = IF rest = {} THEN None ELSE SetMin({x[1] : x \in rest})
               /\ prev' = f
          ELSE queue' = q /\ cap' = c /\ prev' = f /\ UNCHANGED out
    /\ UNCHANGED <<given, fr>>
Next == Send \/ Promise \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Work) /\ WF_vars(Promise)

(* Complete times hold exactly the latest values.                             *)
Exact == \A t \in 0 .. prev - 1 : AccAt(out, <<t>>) = Upsert(given, <<t>>)
(* What waits is covered by the capability, and is still open.                *)
Covered == \A q \in queue : cap # None /\ cap <= q[1] /\ q[1] >= prev
(* One value per key at any time: what the real operator asserts.             *)
Single == \A t \in 0 .. MaxTime : LET a == AccAt(out, <<t>>) IN \A x \in DOMAIN a : a[x] = 1 /\ \A y \in DOMAIN a : y[1] = x[1] => y = x
OutOpen == [][\A j \in Len(out) + 1 .. Len(out') : out'[j][2][1] >= prev]_vars
Finishes == <>(prev = MaxTime + 1 /\ cap = None)
============================================================================
