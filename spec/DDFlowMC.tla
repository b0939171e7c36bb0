----------------------------- MODULE DDFlowMC ------------------------------
(* Bounded model of DDFlow: an environment feeding one input over a 2 x 2    *)
(* partially ordered time domain, and a reference implementation that emits  *)
(* the correction at every settled time in turn.  Checks that the guards of  *)
(* DDFlow keep completed times exact for ever, that an implementation which  *)
(* follows them can always finish, and that corrections are needed at join   *)
(* times nobody updated.                                                     *)
EXTENDS DDFlow
CONSTANTS MaxUps, Prog
VARIABLE ocomp   \* times the implementation has produced output for
mcVars == <<ins, infr, outs, outfr, ocomp>>

Grid == {<<a, b>> : a, b \in 0 .. 1}
Records == {<<0, 0>>, <<0, 1>>}
Fronts == {F \in SUBSET Grid : IsAntichain(F)}
P == CASE Prog = "min"  -> <<"reduce", "min", <<"in", 0>>>>
       [] Prog = "dist" -> <<"distinct", <<"in", 0>>>>
       [] Prog = "join" -> <<"join", "vw", <<"in", 0>>, <<"in", 0>>>>
       [] Prog = "iter" -> <<"iterate", <<"distinct", <<"concat", <<"var", 0, 0>>, <<"map", "incv", <<"var", 0, 0>>>>>>>>, <<"in", 0>>>>

Init == FlowInit(1, 1, 1, 1, <<0, 0>>) /\ ocomp = {}
EnvFeed == /\ Len(ins[1]) < MaxUps
           /\ \E r \in Records, t \in Grid, d \in {1, -1} : Feed(1, << <<r, t, d>> >>)
           /\ UNCHANGED ocomp
EnvPromise == \E f \in Fronts : f # infr[1] /\ Promise(1, f) /\ UNCHANGED ocomp
(* Order the elements of a bag into corrections at time t.                   *)
Corrections(b, t) == LET s == SetToSeq(DOMAIN b) IN [j \in DOMAIN s |-> <<s[j], t, b[s[j]]>>]
Work == \E t \in Grid \ ocomp :
          /\ Settled(P, t)
          /\ \A s \in Grid : Lt(s, t) => s \in ocomp
          /\ LET delta == BMinus(Eval(P, ins, t, << >>), AccAt(outs[1], t))
             IN Emit(1, Corrections(delta, t))
          /\ ocomp' = ocomp \cup {t}
Report == /\ LET f == MinElems(Grid \ ocomp)
             IN f # outfr[1][1] /\ Advance(P, 1, 1, f, Grid)
          /\ UNCHANGED ocomp
Next == EnvFeed \/ EnvPromise \/ Work \/ Report
Spec == Init /\ [][Next]_mcVars /\ WF_mcVars(Work) /\ WF_mcVars(Report) /\ WF_mcVars(EnvPromise)

ClosedTimesExact == \A t \in Grid : Complete(1, t) => Settled(P, t) /\ Exact(P, 1, t)
(* The reference implementation is never stuck short of reporting.           *)
ReportAllowed == \A t \in ocomp : Exact(P, 1, t)
EventuallyFinished == <>(Finished(<<P>>, Grid))
FrontierMonotone == [][FLeq(outfr[1][1], outfr'[1][1])]_mcVars
============================================================================
