----------------------------- MODULE DDBatchMC -----------------------------
(* Explores the life of updates through a batcher, batches and merges, and   *)
(* of a cursor over the result: what DDBatch lets each step do entails that   *)
(* nothing is lost, released early, or visible differently by another route. *)
EXTENDS DDBatch
CONSTANTS Dim, MaxPush

VARIABLES pushed, chain, walked
vars == <<held, lowerb, sealed, batches, curs, traceVars, pushed, chain, walked>>
Zero == [j \in 1 .. Dim |-> 0]
T == IF Dim = 1 THEN {<<x>> : x \in 0 .. 2} ELSE {<<x, y>> : x, y \in 0 .. 1}
Rows == {<<1, 1>>, <<1, 2>>, <<2, 1>>}
Fronts == {F \in SUBSET T : IsAntichain(F)}
Init == /\ BatchInit(Zero) /\ TraceInit(Zero) /\ pushed = << >> /\ chain = << >> /\ walked = {}

DoPush == /\ Len(pushed) < MaxPush
          /\ \E r \in Rows, t \in {x \in T : Beyond(lowerb, x)}, d \in {1, -1} :
               /\ Push(<<(<<r, t, d>>)>>)
               /\ pushed' = Append(pushed, <<r, t, d>>)
          /\ UNCHANGED <<traceVars, chain, walked>>
Sorted(ups) == SortSeq(ups, LAMBDA u, v : Before(u, v))
DoSeal == /\ Len(pushed) > 0 /\ lowerb # {} /\ Len(chain) < 3
          /\ \E F \in Fronts :
               /\ FLeq(lowerb, F) /\ F # lowerb
               /\ LET live == Live(held)
                      out == Sorted(SelectSeq(live, LAMBDA u : ~Beyond(F, u[2])))
                      b == Cardinality(DOMAIN batches) + 1
                  IN /\ Seal(F, lowerb, F, {Zero}, out, Len(out), MinElems(Times(SelectSeq(live, LAMBDA u : Beyond(F, u[2])))))
                     /\ chain' = Append(chain, [lower |-> lowerb, upper |-> F, since |-> {Zero}, content |-> out])
          /\ UNCHANGED <<traceVars, pushed, walked>>
(* Batches of the chain are merged through the specification's own action.     *)
DoMerge == /\ Len(chain) > 1 /\ curs = [c \in {} |-> 0]
           /\ \E j \in 1 .. Len(chain) - 1, F \in Fronts :
                /\ F # {} /\ FLeq(chain[j].since, F) /\ FLeq(chain[j + 1].since, F) /\ FLeq(F, {t \in T : Beyond(lowerb, t)})
                /\ LET c == Sorted(Live(RepSeq(chain[j].content \o chain[j + 1].content, F)))
                       m == [lower |-> chain[j].lower, upper |-> chain[j + 1].upper, since |-> F, content |-> c]
                   IN /\ Proper(c, Len(c))
                      /\ chain' = SubSeq(chain, 1, j - 1) \o <<m>> \o SubSeq(chain, j + 2, Len(chain))
           /\ UNCHANGED <<batchVars, traceVars, pushed, walked>>
(* At the end, walk a cursor over all of it.                                     *)
DoOpen == /\ lowerb = {} /\ DOMAIN curs = {}
          /\ LET bs == [j \in DOMAIN chain |-> chain[j]]
                 c == Flat([j \in DOMAIN chain |-> chain[j].content])
                 keys == KeysOf(c)
             IN curs' = With(curs, 1, [rows |-> c, view |-> <<"none">>, many |-> TRUE, keys |-> keys, vals |-> [i \in DOMAIN keys |-> ValsOf(c, keys[i])], kp |-> 1, vp |-> 1])
          /\ UNCHANGED <<held, lowerb, sealed, batches, traceVars, pushed, chain, walked>>
DoStep == /\ DOMAIN curs # {} /\ KeyValid(curs[1])
          /\ LET s == curs[1]
                 op == IF ValValid(s) THEN "step_val" ELSE "step_key"
             IN /\ walked' = IF ValValid(s) THEN walked \cup {<<s.keys[s.kp], s.vals[s.kp][s.vp]>>} ELSE walked
                /\ curs' = [curs EXCEPT ![1] = CHOOSE t \in Steps(s, op, 0) : TRUE]
          /\ UNCHANGED <<held, lowerb, sealed, batches, traceVars, pushed, chain>>
Next == DoPush \/ DoSeal \/ DoMerge \/ DoOpen \/ DoStep
Spec == Init /\ [][Next]_vars

Content == Flat([j \in DOMAIN chain |-> chain[j].content])
Sinces == IF chain = << >> THEN {Zero} ELSE FoldSeq(LAMBDA b, F : FJoin(F, b.since), {Zero}, chain)
(* Nothing is lost or made up: from the compaction frontier on, the released and the held updates are those pushed. *)
Conserved == SameFrom(Sinces, pushed, Content \o held)
(* Nothing is released before its time, nothing kept after it.                    *)
OnTime == /\ \A j \in DOMAIN held : Beyond(lowerb, held[j][2])
          /\ \A b \in ToSet(chain) : b.since = {Zero} => \A u \in ToSet(b.content) : Within(b.lower, b.upper, u[2])
(* The chain's bounds tile time.                                                   *)
Tiles == /\ \A j \in 1 .. Len(chain) - 1 : chain[j].upper = chain[j + 1].lower
         /\ chain # << >> => chain[1].lower = {Zero} /\ chain[Len(chain)].upper = lowerb
Tidy == \A b \in ToSet(chain) : WellFormed(b.content)
(* A walk to the end has seen every row with a non-zero accumulation at some time.  *)
Seen == (DOMAIN curs # {} /\ ~KeyValid(curs[1])) => walked = {Content[j][1] : j \in DOMAIN Content}
============================================================================
