----------------------------- MODULE DDCapture -----------------------------
(* Capturing a collection as messages, and reading it back from messages     *)
(* that may be duplicated, reordered and split.                               *)
(*                                                                           *)
(* A message states that updates happen, or how many happen at the times of   *)
(* an interval.  A writer eventually makes all the statements that are true,  *)
(* each update once.  A reader reports each update once, and a time as        *)
(* complete only when what it received implies it; in the end, whenever it    *)
(* does.                                                                      *)
EXTENDS DDBag

VARIABLES given,    \* the updates of the collection (each row and time once)
          infr,     \* frontiers promised by the inputs of the writer
          written,  \* updates in messages written
          stated,   \* upper bound of the progress statements written
          gotU,     \* updates received by the reader
          gotP,     \* progress statements received by the reader
          rep,      \* updates reported
          repfr     \* frontiers reported, by observer
capVars == <<given, infr, written, stated, gotU, gotP, rep, repfr>>

CapInit(nphys, nobs, zero) ==
    /\ given = {} /\ infr = [p \in 1 .. nphys |-> {zero}]
    /\ written = {} /\ stated = {zero}
    /\ gotU = {} /\ gotP = {} /\ rep = {} /\ repfr = [w \in 1 .. nobs |-> {zero}]

Distinct(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
At(t) == {u \in given : u[2] = t}
GivenTimes == {u[2] : u \in given}
Within(lo, up, t) == Beyond(lo, t) /\ ~Beyond(up, t)
(* A true statement about the interval: exact counts, each non-zero.          *)
True(lo, up, counts) ==
    /\ Cardinality({c[1] : c \in ToSet(counts)}) = Len(counts)
    /\ ToSet(counts) = {<<t, Cardinality(At(t))>> : t \in {s \in GivenTimes : Within(lo, up, s)}}

(* --- the writer ------------------------------------------------------------ *)
Give(p, ups) ==
    /\ \A j \in DOMAIN ups : Beyond(infr[p], ups[j][2])
    /\ given' = given \cup ToSet(ups)
    /\ UNCHANGED <<infr, written, stated, gotU, gotP, rep, repfr>>
Promise(p, f) ==
    /\ FLeq(infr[p], f) /\ infr' = [infr EXCEPT ![p] = f]
    /\ UNCHANGED <<given, written, stated, gotU, gotP, rep, repfr>>
WriteUpdates(ups) ==
    /\ Distinct(ups) /\ ToSet(ups) \subseteq given \ written
    /\ written' = written \cup ToSet(ups)
    /\ UNCHANGED <<given, infr, stated, gotU, gotP, rep, repfr>>
WriteProgress(lo, up, counts) ==
    /\ lo = stated /\ FLeq(lo, up) /\ lo # up
    /\ \A p \in DOMAIN infr : FLeq(up, infr[p])
    /\ True(lo, up, counts)
    /\ stated' = up
    /\ UNCHANGED <<given, infr, written, gotU, gotP, rep, repfr>>
(* Once its inputs are closed and its sink no longer asks to wait.            *)
WriterDone ==
    /\ \A p \in DOMAIN infr : infr[p] = {}
    /\ written = given /\ stated = {}
    /\ UNCHANGED capVars

(* --- the reader ------------------------------------------------------------ *)
(* How far statements S reach from frontier F without gaps.                   *)
RECURSIVE Reach(_, _)
Reach(S, F) == LET A == {p \in S : FLeq(p[1], F)} IN
    IF A = {} THEN F ELSE CHOOSE r \in {Reach(S \ A, G) : G \in {FoldSet(LAMBDA p, H : FJoin(H, p[2]), F, A)}} : TRUE
(* The times up to which the messages imply that everything was received.     *)
Known(U, P, zero) ==
    LET pf == Reach(P, {zero})
    IN MinElems(pf \cup {t \in GivenTimes : ~Beyond(pf, t) /\ ~(At(t) \subseteq U)})
ReceiveUpdates(ups) ==
    /\ ToSet(ups) \subseteq given
    /\ gotU' = gotU \cup ToSet(ups)
    /\ UNCHANGED <<given, infr, written, stated, gotP, rep, repfr>>
ReceiveProgress(lo, up, counts) ==
    /\ True(lo, up, counts)
    /\ gotP' = gotP \cup {<<lo, up>>}
    /\ UNCHANGED <<given, infr, written, stated, gotU, rep, repfr>>
Passed(F, t) == ~Beyond(F, t)
(* Updates are reported once, when known, and not at times already complete.  *)
Report(ups) ==
    /\ Distinct(ups) /\ ToSet(ups) \subseteq gotU \ rep
    /\ \A j \in DOMAIN ups : \A w \in DOMAIN repfr : ~Passed(repfr[w], ups[j][2])
    /\ rep' = rep \cup ToSet(ups)
    /\ UNCHANGED <<given, infr, written, stated, gotU, gotP, repfr>>
(* Times are reported complete when everything there is known and reported.   *)
Complete(w, f, zero) ==
    /\ FLeq(repfr[w], f) /\ FLeq(f, Known(gotU, gotP, zero))
    /\ \A u \in given : Passed(f, u[2]) => u \in rep
    /\ repfr' = [repfr EXCEPT ![w] = f]
    /\ UNCHANGED <<given, infr, written, stated, gotU, gotP, rep>>
ReaderRested(zero, obs) ==
    /\ \A w \in obs : repfr[w] = Known(gotU, gotP, zero)
    /\ UNCHANGED capVars
(* Another reader starts.                                                      *)
Restart(zero) ==
    /\ gotU' = {} /\ gotP' = {} /\ rep' = {} /\ repfr' = [w \in DOMAIN repfr |-> {zero}]
    /\ UNCHANGED <<given, infr, written, stated>>
============================================================================
