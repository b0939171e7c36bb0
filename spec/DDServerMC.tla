----------------------------- MODULE DDServerMC ----------------------------
(* A server as an algorithm: what is published is a trace of updates, written *)
(* as epochs close and compacted up to the last closed epoch; what imports it *)
(* reads the trace as it is then.  Checked against DDServer; simulating it    *)
(* yields sessions for the real code.                                         *)
EXTENDS DDServer, Json
CONSTANTS Names, Epochs, Keys, MaxOps, Hold, Sim
VARIABLES stored,  \* by published name: updates <<row, time>> to weight (empty when simulating)
          hist
mcVars == <<epoch, progs, stored, hist>>
Some(S) == IF Sim /\ Len(hist) >= 0 /\ S # {} THEN {RandomElement(S)} ELSE S

(* Programs to install.                                                       *)
In0 == <<"input", 0>>
Swap == <<<<"tuple", << <<"spread", <<"var", 1>>>> >>>>, <<"tuple", << <<"spread", <<"var", 0>>>> >>>>>>
Keep == <<<<"tuple", << <<"spread", <<"var", 0>>>> >>>>, <<"tuple", << >>>>>>
JoinP == <<<<"tuple", << <<"spread", <<"var", 1>>>> >>>>, <<"tuple", << <<"spread", <<"var", 2>>>> >>>>>>
Next2 == <<<<"tuple", << <<"spread", <<"var", 2>>>> >>>>, <<"tuple", << >>>>>>
Bodies == <<
    << <<"export", "a", In0>> >>,
    << <<"export", "a", <<"red", In0, "distinct">>>>, <<"export", "b", <<"map", In0, Swap>>>> >>,
    << <<"export", "b", <<"concat", << <<"import", "a">>, In0>>>>>> >>,
    << <<"export", "c", <<"red", <<"import", "a">>, "count">>>> >>,
    << <<"let", "z", <<"import", "b">>>>, <<"export", "d", <<"join", <<"name", "z">>, <<"import", "a">>, JoinP>>>> >>,
    << <<"export", "c", <<"join", <<"map", <<"import", "clock">>, Keep>>, <<"red", In0, "count">>, JoinP>>>> >>,
    << <<"export", "e", <<"concat", << <<"import", "iota:3">>, <<"neg", <<"map", <<"import", "a">>, Keep>>>>>>>>>> >>,
    << <<"let", "i", <<"red", In0, "min">>>>,
       <<"let", "r", <<"red", <<"filter", <<"map", <<"name", "i">>, Keep>>, <<"==", <<"var", 0>>, <<"tuple", << <<"int", 0>> >>>>>>>>, "distinct">>>>,
       <<"scope", "s", << <<"let", "n", <<"red", <<"concat", << <<"name", "x">>, <<"name", "r">>>>>>, "distinct">>>>,
                          <<"var", "x", <<"join", <<"name", "n">>, <<"name", "i">>, Next2>>>> >>>>,
       <<"export", "d", <<"qual", "s", "n">>>> >> >>
Kept == IF Sim THEN DOMAIN Bodies ELSE {1, 3, 4, 6}

Init == SrvInit /\ stored = [x \in {} |-> NoRows] /\ hist = << >>
Log(x) == Len(hist) < MaxOps /\ hist' = Append(hist, x)
At(b, P(_)) == GroupSum({u \in DOMAIN b : P(u[2])}, LAMBDA u : u[1], LAMBDA u : b[u])
(* What a program publishes under x at t, given what the traces hold.         *)
Made(P, st, x, t) ==
    LET p == Producer(P, x) me == P[p] IN
    IF me.kind = "program" THEN
         IMeaning(me.body, x, [input |-> TLCEval([j \in {i + 1 : i \in DOMAIN me.feeds} |-> AccAt(me.feeds[j - 1], <<t>>)]),
                               trace |-> TLCEval([y \in ImportsOf(P, p) |-> At(st[y], LAMBDA s : s <= t)])])
    ELSE Content(P, x, t)
Compact(b, f) == GroupSum(DOMAIN b, LAMBDA u : <<u[1], IF u[2] < f THEN f ELSE u[2]>>, LAMBDA u : b[u])
(* Adds to the traces what closes an epoch, in an order of dependency.        *)
RECURSIVE Close(_, _, _, _)
Close(P, st, todo, t) ==
    IF todo = {} THEN st
    ELSE LET x == CHOOSE y \in todo : ImportsOf(P, Producer(P, y)) \cap todo = {}
             old == IF x \in DOMAIN st THEN st[x] ELSE NoRows
             diff == BMinus(Made(P, st, x, t), At(old, LAMBDA s : TRUE))
         IN Close(P, (x :> TLCEval(BPlus(old, [u \in {<<r, t>> : r \in DOMAIN diff} |-> diff[u[1]]]))) @@ st, todo \ {x}, t)

InstallIt ==
    \E p \in Some(Names), k \in Some(Kept) :
        LET body == Bodies[k] IN
        \* what is refused brings no source of its own
        /\ CanInstall(p, body) \/ (IMentions("import", body) \cap Sources) \subseteq Published(progs)
        /\ IF CanInstall(p, body)
           THEN /\ Install(p, body)
                /\ LET new == Published(progs') \ Published(progs)
                   IN stored' = IF Sim THEN stored ELSE IF epoch = 0 THEN [x \in new |-> NoRows] @@ stored ELSE Close(progs', stored, new, epoch - 1)
           ELSE UNCHANGED <<epoch, progs, stored>>
        /\ Log(<<"install", p, body>>)
FeedIt ==
    \E p \in Some(Names \cap DOMAIN progs), k \in Some(Keys), v \in Some(Keys), t \in Some(0 .. Epochs), d \in Some({-1, 1}) :
        /\ p \in DOMAIN progs /\ DOMAIN progs[p].feeds # {}
        /\ IF CanFeed(p, 0, t) THEN Feed(p, 0, <<<<"t", IInt(k)>>, <<"t", IInt(v)>>>>, t, d) ELSE UNCHANGED srvVars
        /\ UNCHANGED stored
        /\ Log(<<"feed", p, 0, k, v, t, d>>)
DropIt ==
    \E p \in Some(DOMAIN progs), often \in Some(1 .. 3) :
        /\ Sim => often = 1
        /\ IF CanDrop(p) THEN Drop(p) /\ stored' = IF Sim THEN stored ELSE Only(stored, Published(progs')) ELSE UNCHANGED <<epoch, progs, stored>>
        /\ Log(<<"drop", p>>)
TickIt ==
    /\ epoch < Epochs /\ DOMAIN progs # {}
    /\ Tick
    /\ stored' = LET st == Close(progs, stored, Published(progs), epoch)
                     f == IF epoch' > Hold THEN epoch' - Hold ELSE 0
                 IN IF Sim THEN stored ELSE [x \in DOMAIN st |-> Compact(st[x], f)]
    /\ Log(<<"tick">>)
PeekIt ==
    /\ Sim /\ epoch > 0
    /\ \E x \in Some(Published(progs)) : Log(<<"peek", x>>)
    /\ UNCHANGED <<epoch, progs, stored>>
Next == InstallIt \/ FeedIt \/ DropIt \/ TickIt \/ PeekIt
Spec == Init /\ [][Next]_mcVars
View == <<epoch, progs, stored, Len(hist)>>

(* Reading a trace up to the open epoch presents what DDServer says.          *)
Faithful == \A x \in Published(progs) : At(stored[x], LAMBDA s : s < epoch) = Shown(x)
Kinds == DOMAIN stored = Published(progs)
Emitted == IF Len(hist) >= MaxOps THEN PrintT("SCHED " \o ToJson(hist)) ELSE TRUE
============================================================================
