------------------------------- MODULE DDFlow ------------------------------
(* The abstract behaviour of an incremental dataflow.                       *)
(*                                                                          *)
(* State: the updates accepted by each physical input and the frontier it    *)
(* has promised, the updates emitted by each output and the frontier each    *)
(* observer has been told about.                                             *)
(*                                                                          *)
(* An implementation may emit updates at will at times still open, and may   *)
(* declare times complete only when no input can change them any more and    *)
(* the accumulated output is what the program denotes.                       *)
EXTENDS DDProg

VARIABLES ins,    \* ins[i]: sequence of updates accepted by logical input i
          infr,   \* infr[p]: frontier promised by physical input p
          outs,   \* outs[o]: sequence of updates emitted by output o
          outfr   \* outfr[o][w]: frontier of output o as known to observer w
flowVars == <<ins, infr, outs, outfr>>

FlowInit(nin, nphys, nout, nobs, zero) ==
    /\ ins = [i \in 1 .. nin |-> << >>]
    /\ infr = [p \in 1 .. nphys |-> {zero}]
    /\ outs = [o \in 1 .. nout |-> << >>]
    /\ outfr = [o \in 1 .. nout |-> [w \in 1 .. nobs |-> {zero}]]

Logical(p) == ((p - 1) % Len(ins)) + 1
(* Physical inputs feeding logical input i.                                  *)
Feeds(i) == {p \in DOMAIN infr : Logical(p) = i}

(* The variables of the enclosing d-th loop that program e mentions, and those a set of variables needs. *)
RECURSIVE Vars(_, _), Needs(_, _)
Vars(e, d) ==
    LET op == e[1] IN
    IF op = "var" THEN IF e[2] = d THEN {e[3] + 1} ELSE {}
    ELSE IF op \in {"in", "none"} THEN {}
    ELSE IF op = "fix" THEN UNION ({Vars(e[2][j], d + 1) : j \in DOMAIN e[2]} \cup {Vars(e[3][j], d) : j \in DOMAIN e[3]})
    ELSE IF op = "iterate" THEN Vars(e[2], d + 1) \cup Vars(e[3], d)
    ELSE IF op = "iterate0" THEN Vars(e[2], d + 1)
    ELSE IF op = "concats" THEN Vars(e[2], d) \cup UNION {Vars(e[3][j], d) : j \in DOMAIN e[3]}
    ELSE IF op \in {"map", "mapip", "filter", "flat", "explode", "joinfn", "reduce", "threshold", "delay", "v"} THEN Vars(e[3], d)
    ELSE IF op \in {"join", "lookup", "lookup1", "halflt", "halfle"} THEN Vars(e[3], d) \cup Vars(e[4], d)
    ELSE UNION {Vars(e[j], d) : j \in 2 .. Len(e)}
Needs(bodies, S) ==
    LET S2 == S \cup UNION {Vars(bodies[j], 0) : j \in S} IN IF S2 = S THEN S ELSE Needs(bodies, S2)

(* The <<input, time>> pairs that determine the value of program e at t.     *)
RECURSIVE Reads(_, _)
Reads(e, t) ==
    LET op == e[1] IN
    IF op = "in" THEN {<<e[2] + 1, t>>}
    ELSE IF op = "interp" THEN {<<j + 1, t>> : j \in IInputs(e[2], e[3])}
    ELSE IF op \in {"var", "none"} THEN {}
    ELSE IF op = "delay" THEN LET s == DelayInv(e[2], t) IN IF s = << >> THEN {} ELSE Reads(e[3], s)
    ELSE IF op = "fix" THEN LET V == Needs(e[2], {e[4] + 1}) IN UNION ({Reads(e[2][j], t) : j \in V} \cup {Reads(e[3][j], t) : j \in V})
    ELSE IF op = "concats" THEN Reads(e[2], t) \cup UNION {Reads(e[3][j], t) : j \in DOMAIN e[3]}
    ELSE IF op \in {"map", "mapip", "filter", "flat", "explode", "joinfn", "reduce", "threshold"} THEN Reads(e[3], t)
    ELSE IF op = "v" THEN Reads(e[3], t)
    ELSE IF op \in {"join", "lookup", "lookup1", "halflt", "halfle"} THEN Reads(e[3], t) \cup Reads(e[4], t)
    ELSE UNION {Reads(e[j], t) : j \in 2 .. Len(e)}

(* An input accepts updates at times it has not yet closed.                  *)
Feed(p, ups) ==
    /\ \A j \in DOMAIN ups : Beyond(infr[p], ups[j][2])
    /\ ins' = [ins EXCEPT ![Logical(p)] = @ \o ups]
    /\ UNCHANGED <<infr, outs, outfr>>
(* An input promises to only use times beyond f.                             *)
Promise(p, f) ==
    /\ FLeq(infr[p], f)
    /\ infr' = [infr EXCEPT ![p] = f]
    /\ UNCHANGED <<ins, outs, outfr>>
(* Time t is complete at output o when some observer's frontier passed it.   *)
Complete(o, t) == \E w \in DOMAIN outfr[o] : ~Beyond(outfr[o][w], t)
(* Outputs only change open times.                                           *)
Emit(o, ups) ==
    /\ \A j \in DOMAIN ups : ~Complete(o, ups[j][2])
    /\ outs' = [outs EXCEPT ![o] = @ \o ups]
    /\ UNCHANGED <<ins, infr, outfr>>
(* No input that program e reads can still change its value at t.            *)
Settled(e, t) == \A r \in Reads(e, t) : \A p \in Feeds(r[1]) : ~Beyond(infr[p], r[2])
RECURSIVE Exact(_, _, _)
Exact(e, o, t) ==
    IF e[1] = "v" THEN Exact(e[3], o, t)
    ELSE IF e[1] = "ident" THEN Identified(AccAt(outs[o], t), Eval(e[2], ins, t, << >>))
    ELSE AccAt(outs[o], t) = Eval(e, ins, t, << >>)
(* Completing times requires them to be settled and exact.                   *)
(* dom is the set of times at which exactness is judged.                     *)
Advance(e, o, w, f, dom) ==
    /\ FLeq(outfr[o][w], f)
    /\ \A t \in dom : (~Beyond(f, t) /\ ~Complete(o, t)) => Settled(e, t) /\ Exact(e, o, t)
    /\ outfr' = [outfr EXCEPT ![o][w] = f]
    /\ UNCHANGED <<ins, infr, outs>>
(* A reduction applies its logic to a key only for values the key holds at   *)
(* some settled time, and only if there are any.                             *)
Operand(e) == IF e[1] = "v" THEN e[3][3] ELSE e[3]
Call(e, k, group, dom) ==
    /\ group # << >>
    /\ \A j \in DOMAIN group : group[j][2] # 0
    /\ \A j \in 1 .. Len(group) - 1 : group[j][1] < group[j + 1][1]
    /\ \E t \in dom : /\ Settled(Operand(e), t)
                      /\ BagOf([j \in DOMAIN group |-> <<<<k, group[j][1]>>, group[j][2]>>]) = BFilter(LAMBDA x : x[1] = k, Eval(Operand(e), ins, t, << >>))
    /\ UNCHANGED flowVars
(* The inputs a program can see, in whole.                                   *)
RECURSIVE Uses(_)
Uses(e) ==
    LET op == e[1] IN
    IF op = "in" THEN {e[2] + 1}
    ELSE IF op = "interp" THEN {j + 1 : j \in IInputs(e[2], e[3])}
    ELSE IF op \in {"var", "none"} THEN {}
    ELSE IF op = "fix" THEN LET V == Needs(e[2], {e[4] + 1}) IN UNION ({Uses(e[2][j]) : j \in V} \cup {Uses(e[3][j]) : j \in V})
    ELSE IF op = "concats" THEN Uses(e[2]) \cup UNION {Uses(e[3][j]) : j \in DOMAIN e[3]}
    ELSE IF op \in {"map", "mapip", "filter", "flat", "explode", "joinfn", "reduce", "threshold", "delay", "v"} THEN Uses(e[3])
    ELSE IF op \in {"join", "lookup", "lookup1", "halflt", "halfle"} THEN Uses(e[3]) \cup Uses(e[4])
    ELSE UNION {Uses(e[j]) : j \in 2 .. Len(e)}
(* Half joins settle updates in a total order that extends the partial order. *)
Lexical(e) == e[1] \in {"halflt", "halfle"} \/ (e[1] = "v" /\ e[2] \in {"dogs_half", "dogs_half2", "dogs_yield", "dogs_yield2"})
Passed(F, t, lexical) == IF lexical THEN ~\E f \in F : LexLeq(f, t) ELSE ~Beyond(F, t)
(* When nothing moves any more, every time the inputs have passed is complete. *)
Quiet(es, dom) ==
    /\ \A o \in DOMAIN outs : \A t \in dom :
          (\A i \in Uses(es[o]) : \A p \in Feeds(i) : Passed(infr[p], t, Lexical(es[o]))) => Complete(o, t)
    /\ UNCHANGED flowVars
(* Updates that are all necessary: one per record and time, none zero.       *)
Canonical(upds) ==
    /\ \A j \in DOMAIN upds : upds[j][3] # 0
    /\ Cardinality({<<upds[j][1], upds[j][2]>> : j \in DOMAIN upds}) = Len(upds)
(* Once every input is closed everything completes.                          *)
Finished(es, dom) ==
    /\ \A p \in DOMAIN infr : infr[p] = {}
    /\ \A o \in DOMAIN outfr : \A w \in DOMAIN outfr[o] : outfr[o][w] = {}
    /\ \A o \in DOMAIN outs : \A t \in Times(outs[o]) \ dom : Exact(es[o], o, t)
============================================================================
