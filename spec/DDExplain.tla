------------------------------ MODULE DDExplain ------------------------------
(* Explanations of what interpreted programs compute: for rows of the first   *)
(* export, rows of the inputs that suffice to compute them.                   *)
EXTENDS DDInterp

(* The inputs, limited to the rows of D[j], as often as they were there.      *)
XLimit(inputs, D) == [j \in DOMAIN inputs |-> BFilter(LAMBDA x : x \in D[j], inputs[j])]
XSrc(inputs) == [input |-> inputs, trace |-> [x \in {} |-> NoRows], exact |-> FALSE]

(* --- The rows that a row is due to. Values of all names, however deep, when nothing changes. ---- *)
XFlat(vals, body) == \* names are unique
    LET RECURSIVE Flat(_, _)
        Flat(vs, b) == FoldLeft(LAMBDA f, st : IF st[1] = "scope" THEN f @@ (st[2] :> vs[st[2]]) @@ Flat(vs[st[2]], st[3])
                                               ELSE IF st[1] = "export" THEN f ELSE f @@ (st[2] :> vs[st[2]]),
                                [x \in {} |-> NoRows], b)
    IN Flat(vals, body)
RECURSIVE XDue(_, _, _, _), XDueAll(_, _, _, _, _)
(* What rows S of an expression are due to directly: rows of names and inputs. *)
XDue(e, S, ch, src) ==
    LET op == e[1]
        sub == IExpr(e[2], ch, src)
    IN IF S = {} THEN {}
       ELSE CASE op = "input" -> {<<"input", e[2], x>> : x \in S}
              [] op = "name"  -> {<<"name", e[2], x>> : x \in S}
              [] op = "qual"  -> {<<"name", e[3], x>> : x \in S}
              [] op = "map"   -> \* exactly, or of all that has their keys
                    LET K == {x[1] : x \in S}
                    IN XDue(e[2], {x \in DOMAIN sub : IF src.exact THEN IProject(e[3], x) \in S ELSE IProject(e[3], x)[1] \in K}, ch, src)
              [] op \in {"filter", "arrange", "inspect"} -> XDue(e[2], S, ch, src)
              [] op = "flatmap" -> XDue(e[2], {x \in DOMAIN sub : DOMAIN IFlat(e[3], [y \in {x} |-> 1]) \cap S # {}}, ch, src)
              [] op = "red"   -> LET K == {x[1] : x \in S} IN XDue(e[2], {x \in DOMAIN sub : x[1] \in K}, ch, src)
              [] op = "join"  ->
                    LET r == IExpr(e[3], ch, src)
                        E == {p \in UNION {{<<x, y>> : y \in {z \in DOMAIN r : z[1] = x[1]}} : x \in DOMAIN sub} : IProject(e[4], <<p[1][1], p[1][2], p[2][2]>>) \in S}
                    IN XDue(e[2], {p[1] : p \in E}, ch, src) \cup XDue(e[3], {p[2] : p \in E}, ch, src)
              [] op = "concat" -> XDueAll(e[2], 1, S, ch, src)
XDueAll(es, j, S, ch, src) ==
    IF j > Len(es) THEN {} ELSE XDue(es[j], S \cap DOMAIN IExpr(es[j], ch, src), ch, src) \cup XDueAll(es, j + 1, S, ch, src)
(* All that rows Q of an export are due to: the least set of facts closed under that. *)
XCauses(prog, n, src, Q) ==
    LET e == IExported(prog, n)
        body == TLCEval(IPrune(prog, IReach(IAll(prog), INames(e))))
        ran == IFill(<<[body |-> body, hist |-> <<[at |-> 0, vals |-> [x \in {} |-> NoRows]]>>]>>, src)
        ch == TLCEval(<<[body |-> << >>, hist |-> <<[at |-> 0, vals |-> XFlat(INow(ran[1]).vals, body)]>>]>>)
        defs == IAll(body)
        RECURSIVE Close(_, _)
        Close(all, new) ==
            IF new = {} THEN all
            ELSE LET N == {f[2] : f \in {g \in new : g[1] = "name"}}
                     due(m) == XDue((CHOOSE d \in defs : d[1] = m)[2], {f[3] : f \in {g \in new : g[1] = "name" /\ g[2] = m}}, ch, src)
                     more == TLCEval(UNION {due(m) : m \in N})
                 IN Close(all \cup more, more \ all)
        first == TLCEval(XDue(e, Q, ch, src))
    IN Close(first, first)
XInputs(causes, j) == {f[3] : f \in {g \in causes : g[1] = "input" /\ g[2] = j - 1}}

(* --- What an explanation of rows Q of an export is: demands of rows, of each input. -------------- *)
Grounded(inputs, D) == \A j \in DOMAIN inputs : D[j] \subseteq DOMAIN inputs[j]
(* The rows demanded suffice to compute the rows asked about.                 *)
Sufficient(prog, n, inputs, Q, D) ==
    LET full == TLCEval(DOMAIN IMeaning(prog, n, XSrc(inputs)))
        some == TLCEval(IMeaning(prog, n, XSrc(XLimit(inputs, D))))
    IN \A q \in Q \cap full : q \in DOMAIN some /\ some[q] > 0
(* Nothing is demanded to which what is asked about is not due, where         *)
(* projections are traced by their keys.                                      *)
Relevant(prog, n, inputs, Q, D) ==
    LET C == TLCEval(XCauses(prog, n, XSrc(inputs), Q)) IN \A j \in DOMAIN inputs : D[j] \subseteq XInputs(C, j)
=============================================================================
