----------------------------- MODULE DDSched -------------------------------
(* The environment of DDFlow, as a generator: simulating this module yields   *)
(* schedules of inputs and promises that the harness replays into the code.   *)
EXTENDS DDFlow, Json
CONSTANTS Dims, Nins, Workers, MaxTime, Keys, Vals, MaxActs
VARIABLES hist, shape
schedVars == <<ins, infr, outs, outfr, hist, shape>>

Grid(dim) == [1 .. dim -> 0 .. MaxTime]
Init ==
    \E dim \in Dims, nin \in Nins, nw \in Workers :
        /\ shape = <<dim, nin, nw>>
        /\ FlowInit(nin, nin * nw, 0, 0, [j \in 1 .. dim |-> 0])
        /\ hist = << <<"shape", dim, nin, nw, MaxTime, Keys, Vals>> >>
Log(x) == hist' = Append(hist, x) /\ UNCHANGED shape
Worker(p) == (p - 1) \div shape[2]
Input(p) == (p - 1) % shape[2]
Pick(S) == RandomElement(S)
Open(p) == {t \in Grid(shape[1]) : Beyond(infr[p], t)}
(* A new update, or the retraction of an earlier one; it may travel with the previous.  *)
SendOne(p, u, along) ==
    LET n == Len(hist) last == hist[n] IN
    /\ Feed(p, <<u>>)
    /\ IF along /\ last[1] = "send" /\ (IF last[1] = "send" THEN last[2] = Worker(p) /\ last[3] = Input(p) ELSE FALSE)
       THEN hist' = [hist EXCEPT ![n] = [last EXCEPT ![4] = Append(@, u)]] /\ UNCHANGED shape
       ELSE Log(<<"send", Worker(p), Input(p), <<u>>>>)
Send(p) ==
    /\ Open(p) # {}
    /\ \E k \in {Pick(0 .. Keys - 1)}, v \in {Pick(0 .. Vals - 1)}, t \in {Pick(Open(p))}, d \in {Pick(1 .. 4)}, along \in {Pick(1 .. 2)} :
          SendOne(p, <<<<k, v>>, t, IF d = 1 THEN 2 ELSE IF d = 2 THEN -1 ELSE 1>>, along = 1)
Undo(p) ==
    LET old == ins[Logical(p)] IN
    /\ Open(p) # {} /\ old # << >>
    /\ \E j \in {Pick(DOMAIN old)}, t \in {Pick(Open(p))}, along \in {Pick(1 .. 2)} :
          SendOne(p, <<old[j][1], Join(old[j][2], t), -old[j][3]>>, along = 1)
(* The frontier moves past one of its elements, or closes.                              *)
Advanced(p) ==
    LET F == infr[p] IN
    /\ F # {}
    /\ \E f \in {Pick(F)}, c \in {Pick(0 .. 2 * shape[1])} :
          LET up == {[f EXCEPT ![j] = @ + 1] : j \in {x \in 1 .. shape[1] : c = 0 \/ c > shape[1] \/ x = c}}
              G == {g \in MinElems((F \ {f}) \cup up) : \A j \in 1 .. shape[1] : g[j] <= MaxTime + 1}
          IN Promise(p, G) /\ Log(<<"caps", Worker(p), Input(p), SetToSeq(G)>>)
Step == (\E w \in {Pick(0 .. shape[3] - 1)}, n \in {Pick(1 .. 3)} : Log(<<"step", w, n>>)) /\ UNCHANGED flowVars
Rest == shape[3] = 1 /\ Log(<<"quiet", 0>>) /\ UNCHANGED flowVars
Next == /\ Len(hist) <= MaxActs
        /\ \/ \E p \in {Pick(DOMAIN infr)} : Send(p)
           \/ \E p \in {Pick(DOMAIN infr)} : Send(p) \/ Undo(p)
           \/ \E p \in {Pick(DOMAIN infr)} : Advanced(p)
           \/ Step
           \/ Pick(1 .. 4) = 1 /\ Rest
Spec == Init /\ [][Next]_schedVars
Emitted == IF Len(hist) > MaxActs THEN PrintT("SCHED " \o ToJson(hist)) ELSE TRUE
============================================================================
