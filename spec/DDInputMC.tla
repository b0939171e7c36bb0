----------------------------- MODULE DDInputMC -----------------------------
(* Input sessions as an algorithm: a buffer of Cap updates per session, and a *)
(* handle whose time trails that of the session until it is flushed.  Checked *)
(* against DDInput; simulating it yields schedules for the real code.         *)
EXTENDS DDInput, Json
CONSTANTS NSess, NColl, Cap, MaxTime, Keys, MaxOps, Sim
VARIABLES buf,      \* buffered updates of each session
          held,     \* time of the handle of each session
          flight,   \* updates sent to a collection that have not appeared
          hist
mcVars == <<time, told, open, loose, fed, given, seen, front, buf, held, flight, hist>>
Zero == <<0>>
Some(S) == IF Sim /\ Len(hist) >= 0 /\ S # {} THEN {RandomElement(S)} ELSE S
Init ==
    /\ InInit(NSess, NColl, 1, Zero)
    /\ buf = [s \in 1 .. NSess |-> << >>] /\ held = time
    /\ flight = [c \in 1 .. NColl |-> << >>]
    /\ hist = << <<"shape", NSess, NColl>> >>
Log(x) == Len(hist) <= MaxOps /\ hist' = Append(hist, x)
Sent(s) == flight' = [c \in DOMAIN flight |-> IF c \in fed[s] THEN flight[c] \o buf[s] ELSE flight[c]]
Fronts(c, F) == FMeet(Limit(c, F), MinElems(Times(flight[c])))

Update ==
    \E s \in Some(1 .. NSess), k \in Some(0 .. Keys - 1), t \in Some(0 .. MaxTime), d \in Some({-1, 1, 2}) :
        LET u == << <<k, 0>>, <<t>>, d >> IN
        /\ fed[s] # {} /\ open[s] /\ t >= time[s][1]
        /\ Supply(s, u[1], u[2], d)
        /\ IF Len(buf[s]) = Cap THEN Sent(s) /\ buf' = [buf EXCEPT ![s] = <<u>>]
           ELSE UNCHANGED flight /\ buf' = [buf EXCEPT ![s] = Append(@, u)]
        /\ held' = held
        /\ Log(<<IF t = time[s][1] THEN "now" ELSE "upd", s - 1, u>>)
Move ==
    \E s \in Some(1 .. NSess), t \in Some(0 .. MaxTime) :
        /\ open[s]
        /\ IF t >= time[s][1] THEN Advance(s, <<t>>) /\ Log(<<"adv", s - 1, t>>) ELSE Refused(s, <<t>>) /\ Log(<<"bad", s - 1, t>>)
        /\ UNCHANGED <<buf, held, flight>>
FlushIt ==
    \E s \in Some(1 .. NSess) :
        /\ Flush(s) /\ Sent(s) /\ buf' = [buf EXCEPT ![s] = << >>] /\ held' = [held EXCEPT ![s] = time[s]]
        /\ Log(<<"flush", s - 1>>)
CloseIt ==
    \E s \in Some(1 .. NSess), often \in Some(1 .. 4) :
        /\ often = 1
        /\ \A c \in 1 .. NColl : \E x \in 1 .. NSess : c \in fed[x]
        /\ Close(s) /\ Sent(s) /\ buf' = [buf EXCEPT ![s] = << >>] /\ held' = held
        /\ Log(<<"close", s - 1>>)
(* A new collection of some sessions, each flushed first.                      *)
Build ==
    \E c \in 1 .. NColl, S \in Some((SUBSET (1 .. NSess)) \ {{}}) :
        /\ \A x \in 1 .. NSess : c \notin fed[x]
        /\ \A b \in 1 .. c - 1 : \E x \in 1 .. NSess : b \in fed[x]
        /\ \A s \in S : open[s] /\ ~loose[s]
        /\ fed' = [s \in DOMAIN fed |-> IF s \in S THEN fed[s] \cup {c} ELSE fed[s]]
        /\ told' = [s \in DOMAIN told |-> IF s \in S THEN [told[s] EXCEPT ![c] = Zero] ELSE told[s]]
        /\ UNCHANGED <<time, open, loose, given, seen, front, buf, held, flight>>
        /\ Log(<<"build", c - 1, SetToSeq({s - 1 : s \in S})>>)
(* What the dataflow makes of it: updates appear, the frontier follows.        *)
Arrive ==
    \E c \in 1 .. NColl :
        /\ flight[c] # << >> /\ Appear(c, <<Head(flight[c])>>) /\ flight' = [flight EXCEPT ![c] = Tail(@)]
        /\ UNCHANGED <<buf, held, hist>>
Follow ==
    \E c \in 1 .. NColl :
        LET f == Fronts(c, held) IN
        /\ \E s \in 1 .. NSess : c \in fed[s]
        /\ front[c][1] # f
        /\ front' = [front EXCEPT ![c][1] = f]
        /\ UNCHANGED <<time, told, open, loose, fed, given, seen, buf, held, flight, hist>>
Run == /\ Sim /\ hist[Len(hist)][1] # "rest"
       /\ \E r \in Some({"step", "rest"}) : Log(<<r>>)
       /\ UNCHANGED <<time, told, open, loose, fed, given, seen, front, buf, held, flight>>
Next == Update \/ Move \/ FlushIt \/ CloseIt \/ Build \/ Run \/ (~Sim /\ (Arrive \/ Follow))
Spec == Init /\ [][Next]_mcVars
View == <<time, told, open, loose, fed, given, seen, front, buf, held, flight, Len(hist)>>
(* The algorithm keeps to DDInput.                                              *)
Sound == \A c \in 1 .. NColl : (\E s \in 1 .. NSess : c \in fed[s]) =>
    LET f == Fronts(c, held) IN
    /\ FLeq(front[c][1], f) /\ FLeq(f, Limit(c, time)) /\ Before(seen[c], f) = Before(given[c], f)
    /\ \A j \in DOMAIN flight[c] : Beyond(front[c][1], flight[c][j][2])
    /\ FLeq(Limit(c, [s \in DOMAIN told |-> told[s][c]]), Limit(c, held))
Whole == \A c \in 1 .. NColl :
    LET late == FoldLeft(LAMBDA a, s : IF c \in fed[s] THEN BPlus(a, UpdBag(buf[s])) ELSE a, UpdBag(flight[c]), [s \in 1 .. NSess |-> s])
    IN given[c] = BPlus(seen[c], late)
Loose == \A s \in 1 .. NSess : buf[s] # << >> => loose[s]
Emitted == IF Len(hist) > MaxOps THEN PrintT("SCHED " \o ToJson(hist)) ELSE TRUE
============================================================================
