------------------------------ MODULE DDInterp ------------------------------
(* What interpreted programs mean: trees of scopes whose variables start     *)
(* empty and are updated synchronously until nothing changes.                *)
(*                                                                          *)
(* A case names its arms by tag, and what applies to other tags and to gaps.  *)
(* A program is a sequence of statements, in any order:                      *)
(*   <<"let", n, e>>  <<"var", n, e>>  <<"scope", n, body>>  <<"export", n, e>> *)
(* A value is <<"i", n>>, <<"t", v...>>, <<"l", v...>> or <<"v", tag, v>>.   *)
(* A record is a pair of values.                                             *)
EXTENDS DDBag, TLC

IUnit == <<"t">>
IInt(n) == <<"i", n>>
ITrue(b) == IF b THEN IInt(1) ELSE IInt(0)
ITruthy(v) == v[1] = "i" /\ v[2] # 0
IRank(c) == CASE c = "i" -> 0 [] c = "t" -> 1 [] c = "v" -> 2 [] c = "l" -> 3
(* The order of values: by kind, then by tag and payload, or as words.       *)
RECURSIVE ILess(_, _), IWord(_, _, _)
ILess(a, b) ==
    IF a[1] # b[1] THEN IRank(a[1]) < IRank(b[1])
    ELSE IF a[1] = "i" THEN a[2] < b[2]
    ELSE IF a[1] = "v" THEN a[2] < b[2] \/ (a[2] = b[2] /\ ILess(a[3], b[3]))
    ELSE IWord(a, b, 2)
IWord(a, b, j) ==
    IF j > Len(b) THEN FALSE
    ELSE IF j > Len(a) THEN TRUE
    ELSE IF a[j] = b[j] THEN IWord(a, b, j + 1)
    ELSE ILess(a[j], b[j])

(* --- Scalars. env holds the operator's rows, then what cases and folds bind. ---------------- *)
RECURSIVE ITerm(_, _), ISeq(_, _, _), IFold(_, _, _, _, _)
ITerm(t, env) ==
    LET op == t[1] IN
    CASE op = "var"    -> env[t[2] + 1]
      [] op = "bound"  -> env[Len(env) - t[2]]
      [] op = "int"    -> IInt(t[2])
      [] op = "tuple"  -> <<"t">> \o ISeq(t[2], env, 1)
      [] op = "list"   -> <<"l">> \o ISeq(t[2], env, 1)
      [] op = "proj"   -> ITerm(t[2], env)[t[3] + 2]
      [] op = "inject" -> <<"v", ITerm(t[2], env)[2], ITerm(t[3], env)>>
      [] op = "case"   -> LET s == ITerm(t[2], env)
                          IN IF s[2] < Len(t[3]) /\ t[3][s[2] + 1][1] # "gap" THEN ITerm(t[3][s[2] + 1], Append(env, s[3])) ELSE ITerm(t[4][1], env)
      [] op = "fold"   -> IFold(ITerm(t[2], env), 2, ITerm(t[3], env), t[4], env)
      [] op = "if"     -> IF ITruthy(ITerm(t[2], env)) THEN ITerm(t[3], env) ELSE ITerm(t[4], env)
      [] op = "neg"    -> IInt(-(ITerm(t[2], env)[2]))
      [] op = "not"    -> ITrue(~ITruthy(ITerm(t[2], env)))
      [] op = "istag"  -> LET v == ITerm(t[3], env) IN ITrue(v[1] = "v" /\ v[2] = t[2])
      [] op = "len"    -> IInt(Len(ITerm(t[2], env)) - 1)
      [] op = "and"    -> ITrue(ITruthy(ITerm(t[2], env)) /\ ITruthy(ITerm(t[3], env)))
      [] op = "or"     -> ITrue(ITruthy(ITerm(t[2], env)) \/ ITruthy(ITerm(t[3], env)))
      [] OTHER         ->
            LET a == ITerm(t[2], env) b == ITerm(t[3], env) IN
            CASE op = "+"  -> IInt(a[2] + b[2])
              [] op = "-"  -> IInt(a[2] - b[2])
              [] op = "*"  -> IInt(a[2] * b[2])
              [] op = "==" -> ITrue(a = b)
              [] op = "!=" -> ITrue(a # b)
              [] op = "<"  -> ITrue(ILess(a, b))
              [] op = "<=" -> ITrue(~ILess(b, a))
              [] op = ">"  -> ITrue(ILess(b, a))
              [] op = ">=" -> ITrue(~ILess(a, b))
(* The fields from the j-th on; a spread contributes all of its own.         *)
ISeq(ts, env, j) ==
    IF j > Len(ts) THEN << >>
    ELSE (IF ts[j][1] = "spread" THEN Tail(ITerm(ts[j][2], env)) ELSE <<ITerm(ts[j], env)>>) \o ISeq(ts, env, j + 1)
(* The step sees the element innermost, and the accumulator beyond it.       *)
IFold(l, j, acc, step, env) ==
    IF j > Len(l) THEN acc ELSE IFold(l, j + 1, ITerm(step, env \o <<acc, l[j]>>), step, env)

(* --- Operators on collections. ----------------------------------------------------------------- *)
IProject(p, env) == <<ITerm(p[1], env), ITerm(p[2], env)>>
IJoin(p, a, b) ==
    LET E == UNION {{<<x, y>> : y \in {z \in DOMAIN b : z[1] = x[1]}} : x \in DOMAIN a}
    IN GroupSum(E, LAMBDA e : IProject(p, <<e[1][1], e[1][2], e[2][2]>>), LAMBDA e : a[e[1]] * b[e[2]])
IRepeat(v, n) == IF n <= 0 THEN << >> ELSE [j \in 1 .. n |-> v]
IReduce(r, b) ==
    LET K == {x[1] : x \in DOMAIN b}
        vals(k) == {x[2] : x \in {y \in DOMAIN b : y[1] = k}}
        sum(k) == SumOver(vals(k), LAMBDA v : b[<<k, v>>])
        one(k) ==
            CASE r = "min"      -> CHOOSE v \in vals(k) : \A w \in vals(k) : ~ILess(w, v)
              [] r = "distinct" -> IUnit
              [] r = "count"    -> <<"t", IInt(sum(k))>>
              [] r = "collect"  -> <<"l">> \o FoldLeft(LAMBDA s, v : s \o IRepeat(v, b[<<k, v>>]), << >>,
                                                       SetToSortSeq(vals(k), LAMBDA x, y : ILess(x, y)))
    IN [x \in {<<k, one(k)>> : k \in {j \in K : r = "count" => sum(j) > 0}} |-> 1]
IFlat(t, b) ==
    LET E == UNION {LET l == ITerm(t, x) IN {<<x, j, l[j + 1]>> : j \in 1 .. Len(l) - 1} : x \in DOMAIN b}
    IN GroupSum(E, LAMBDA e : <<e[1][1], <<"t", IInt(e[2] - 1), e[3]>>>>, LAMBDA e : b[e[1]])
(* Delayed rows appear at an iteration determined by the length of a number. *)
RECURSIVE IBits(_)
IBits(n) == IF n = 0 THEN 0 ELSE 1 + IBits(n \div 2)
IDelay(n) == 256 * IBits(n)
ILift(v, n) == IF v[1] = "t" THEN Append(v, IInt(n)) ELSE <<"t", v, IInt(n)>>

(* --- Names, and what they depend on. ------------------------------------------------------------ *)
IDefs(body, n, kinds) == {j \in DOMAIN body : body[j][1] \in kinds /\ body[j][2] = n}
IVars(body) == {body[j][2] : j \in {x \in DOMAIN body : body[x][1] = "var"}}
RECURSIVE INames(_), IReads(_, _), IAll(_), IReach(_, _), IPrune(_, _), IHas(_, _)
IParts(e) == IF e[1] \in {"input", "import", "name", "qual"} THEN << >>
             ELSE IF e[1] = "concat" THEN e[2] ELSE IF e[1] = "join" THEN <<e[2], e[3]>> ELSE <<e[2]>>
INames(e) == IF e[1] = "name" THEN {e[2]} ELSE IF e[1] = "qual" THEN {e[3]} ELSE LET p == IParts(e) IN UNION {INames(p[j]) : j \in DOMAIN p}
IReads(op, e) == IF e[1] \in {"input", "import"} THEN (IF e[1] = op THEN {e[2]} ELSE {}) ELSE LET p == IParts(e) IN UNION {IReads(op, p[j]) : j \in DOMAIN p}
IHas(op, e) == e[1] = op \/ LET p == IParts(e) IN \E j \in DOMAIN p : IHas(op, p[j])
IDelays(body) == \E j \in DOMAIN body : body[j][1] \in {"let", "var"} /\ IHas("enter_at", body[j][3])
(* All definitions of a program, of whatever scope.                          *)
IAll(body) == UNION {IF body[j][1] = "scope" THEN IAll(body[j][3]) ELSE IF body[j][1] = "export" THEN {} ELSE {<<body[j][2], body[j][3]>>} : j \in DOMAIN body}
IReach(defs, S) ==
    LET S2 == S \cup UNION {INames(x[2]) : x \in {y \in defs : y[1] \in S}} IN IF S2 = S THEN S ELSE IReach(defs, S2)
(* The statements that define the names of S.                                *)
IPrune(body, S) ==
    LET some == [j \in DOMAIN body |-> IF body[j][1] = "scope" THEN <<"scope", body[j][2], IPrune(body[j][3], S)>> ELSE body[j]]
    IN SelectSeq(some, LAMBDA st : IF st[1] = "scope" THEN st[3] # << >> ELSE st[2] \in S /\ st[1] # "export")

(* --- Scopes. A chain holds the enclosing scopes, outermost first: their statements, and for each of *)
(* --- their iterations up to the current one its number and the values of names: the variables, and *)
(* --- what is defined by them. The value of a scope is that of its names once nothing changes.        *)
INow(s) == s.hist[Len(s.hist)]
RECURSIVE IExpr(_, _, _), IRun(_, _), IConcat(_, _, _, _)
IExpr(e, ch, src) ==
    LET op == e[1] sub(j) == IExpr(e[j], ch, src) IN
    CASE op = "input"   -> src.input[e[2] + 1]
      [] op = "import"  -> src.trace[e[2]]
      [] op = "name"    -> \* the innermost scope that defines it
            LET d == CHOOSE x \in DOMAIN ch : /\ e[2] \in DOMAIN INow(ch[x]).vals
                                              /\ \A y \in DOMAIN ch : y > x => e[2] \notin DOMAIN INow(ch[y]).vals
            IN INow(ch[d]).vals[e[2]]
      [] op = "qual"    -> INow(ch[Len(ch)]).vals[e[2]][e[3]]
      [] op = "map"     -> LET p == e[3] IN BMap(LAMBDA x : IProject(p, x), sub(2))
      [] op = "filter"  -> LET t == e[3] IN BFilter(LAMBDA x : ITruthy(ITerm(t, x)), sub(2))
      [] op = "flatmap" -> IFlat(e[3], sub(2))
      [] op = "neg"     -> BNeg(sub(2))
      [] op \in {"arrange", "inspect"} -> sub(2)
      [] op = "enter_at" -> LET t == e[3] n == INow(ch[Len(ch)]).at IN BFilter(LAMBDA x : IDelay(ITerm(t, x)[2]) <= n, sub(2))
      [] op = "lift_iter" -> \* each change, with the iteration that made it
            LET d == Len(ch)
                upto(n) == IF n = 0 THEN NoRows ELSE IExpr(e[2], [ch EXCEPT ![d].hist = SubSeq(@, 1, n)], src)
                change(n) == LET b == BMinus(upto(n), upto(n - 1)) k == ch[d].hist[n].at IN BMap(LAMBDA x : <<x[1], ILift(x[2], k)>>, b)
            IN FoldLeft(LAMBDA a, n : BPlus(a, change(n)), NoRows, [n \in 1 .. Len(ch[d].hist) |-> n])
      [] op = "join"    -> IJoin(e[4], sub(2), sub(3))
      [] op = "red"     -> IReduce(e[3], sub(2))
      [] op = "concat"  -> IConcat(e[2], 1, ch, src)
IConcat(es, j, ch, src) == IF j > Len(es) THEN NoRows ELSE BPlus(IExpr(es[j], ch, src), IConcat(es, j + 1, ch, src))
(* The scope's statements, which come in an order of dependency, define what  *)
(* follows from the variables of the latest iteration.                       *)
IFill(ch, src) ==
    LET d == Len(ch) IN
    FoldLeft(LAMBDA c, st :
        IF st[1] \notin {"let", "scope"} THEN c
        ELSE LET v == TLCEval(IF st[1] = "let" THEN IExpr(st[3], c, src)
                              ELSE LET r == IRun(Append(c, [body |-> st[3], hist |-> <<[at |-> 0, vals |-> [x \in IVars(st[3]) |-> NoRows]]>>]), src)
                                   IN INow(r[d + 1]).vals)
             IN TLCEval([c EXCEPT ![d].hist[Len(c[d].hist)].vals = (st[2] :> v) @@ @]),
        ch, ch[d].body)
(* Iterates the innermost scope until nothing changes, whatever is delayed.  *)
IRun(ch0, src) ==
    LET ch == IFill(ch0, src)
        d == Len(ch)
        s == ch[d]
        now == INow(s)
        vars == IVars(s.body)
        next == TLCEval([n \in vars |-> IExpr(s.body[CHOOSE x \in IDefs(s.body, n, {"var"}) : TRUE][3], ch, src)])
        later(k) == IRun([ch EXCEPT ![d].hist = Append(@, [at |-> k, vals |-> next])], src)
    IN IF next # [n \in vars |-> now.vals[n]] THEN later(now.at + 1)
       ELSE IF now.at < 1024 /\ IDelays(s.body) THEN later(256 * (now.at \div 256 + 1))
       ELSE ch
(* The collection a program exports under a name, of the statements it needs. *)
IExported(prog, n) == prog[CHOOSE x \in IDefs(prog, n, {"export"}) : TRUE][3]
IMeaning(prog, n, src) ==
    LET e == IExported(prog, n)
        body == TLCEval(IPrune(prog, IReach(IAll(prog), INames(e))))
    IN IExpr(e, IFill(<<[body |-> body, hist |-> <<[at |-> 0, vals |-> [x \in {} |-> NoRows]]>>]>>, src), src)
(* The inputs or traces a program mentions. *)
RECURSIVE IMentions(_, _)
IMentions(op, body) == UNION {IF body[j][1] = "scope" THEN IMentions(op, body[j][3]) ELSE IReads(op, body[j][3]) : j \in DOMAIN body}
(* The names a program exports. *)
IExports(body) == {body[j][2] : j \in {x \in DOMAIN body : body[x][1] = "export"}}
(* The inputs an export can depend on. *)
IInputs(prog, n) ==
    LET e == IExported(prog, n) defs == IAll(prog) S == IReach(defs, INames(e))
    IN IReads("input", e) \cup UNION {IReads("input", x[2]) : x \in {y \in defs : y[1] \in S}}
=============================================================================
