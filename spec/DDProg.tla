------------------------------- MODULE DDProg ------------------------------
(* Denotational semantics of programs over collections of <<key, value>>    *)
(* records.  Eval(e, ins, t, env) is the collection program e denotes when   *)
(* input i holds the accumulation at time t of the updates ins[i].           *)
(* This is the reference every incremental execution must agree with.       *)
EXTENDS DDInterp

FMap(f, x) ==
    LET k == x[1] v == x[2] IN
    CASE f = "swap"  -> <<v, k>>
      [] f = "kk"    -> <<k, k>>
      [] f = "vv"    -> <<v, v>>
      [] f = "incv"  -> <<k, (v + 1) % 5>>
      [] f = "inck"  -> <<(k + 1) % 4, v>>
      [] f = "konst" -> <<0, v>>
      [] f = "half"  -> <<k, v \div 2>>
      [] f = "pack"  -> <<k % 2, (k + v) % 5>>
      [] f = "mod4"  -> <<k % 4, v % 5>>
      [] f = "k0"    -> <<k, 0>>
FFilter(f, x) ==
    CASE f = "lt"   -> x[1] < x[2]
      [] f = "even" -> x[2] % 2 = 0
      [] f = "knz"  -> x[1] # 0
      [] f = "ne"   -> x[1] # x[2]
FFlat(f, x) ==
    CASE f = "both"  -> << <<x, 1>>, <<<<x[2], x[1]>>, 1>> >>
      [] f = "range" -> [j \in 1 .. (x[2] % 5) |-> <<<<x[1], j - 1>>, 1>>]
      [] f = "none0" -> IF x[2] = 0 THEN << >> ELSE << <<x, 1>> >>
FExplode(f, x) ==
    CASE f = "byv" -> << <<<<x[1], 0>>, x[2]>> >>
      [] f = "pm"  -> << <<x, 2>>, <<<<x[2], x[1]>>, -1>> >>
FJoin2(f, k, v, w) ==
    CASE f = "vw" -> <<v, w>>
      [] f = "wv" -> <<w, v>>
      [] f = "kw" -> <<k, w>>
      [] f = "kp" -> <<k, (v + w) % 5>>
      [] f = "kv" -> <<k, v>>

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

(* Reductions: k, and the bag b of the key's values (non-empty support).    *)
(* The result is a sequence of <<value, weight>>.                            *)
FReduce(f, b) ==
    LET V == DOMAIN b
        vs == SetToSortSeq(V, LAMBDA x, y : x < y)
    IN
    CASE f = "min"  -> << <<SetMin(V), 1>> >>
      [] f = "max"  -> << <<SetMax(V), 1>> >>
      [] f = "cnt"  -> << <<SumOver(V, LAMBDA x : b[x]), 1>> >>
      [] f = "sum"  -> << <<SumOver(V, LAMBDA x : x * b[x]), 1>> >>
      [] f = "len"  -> << <<Cardinality(V), 1>> >>
      [] f = "vals" -> [i \in DOMAIN vs |-> <<vs[i], 1>>]
      [] f = "pos"  -> LET ps == SelectSeq(vs, LAMBDA x : b[x] > 0) IN [i \in DOMAIN ps |-> <<ps[i], 1>>]
      [] f = "top2" -> [i \in 1 .. MinI(2, Len(vs)) |-> <<vs[i], b[vs[i]]>>]
      [] f = "wmin" -> << <<SetMin(V), b[SetMin(V)]>> >>
      [] f = "dup"  -> [i \in 1 .. 2 * Len(vs) |->
                          IF i <= Len(vs) THEN <<vs[i], b[vs[i]]>>
                          ELSE <<vs[i - Len(vs)] + 1, -b[vs[i - Len(vs)]]>>]
FThresh(f, w) ==
    CASE f = "pos"  -> IF w > 0 THEN 1 ELSE 0
      [] f = "mod2" -> w % 2
      [] f = "clip" -> IF w > 2 THEN 2 ELSE w
      [] f = "one"  -> 1
      [] f = "neg"  -> -w
      [] f = "cap2" -> IF w > 2 THEN 2 ELSE IF w < 0 THEN 0 ELSE w

(* Group the collection by key and apply the reduction to each group.       *)
BReduce(f, b) ==
    LET K == {x[1] : x \in DOMAIN b}
        group(k) == LET X == {x \in DOMAIN b : x[1] = k}
                        V == {x[2] : x \in X}
                    IN [v \in V |-> b[<<k, v>>]]
        E == UNION {LET s == FReduce(f, group(k)) IN {<<k, i, s[i][1], s[i][2]>> : i \in DOMAIN s} : k \in K}
    IN GroupSum(E, LAMBDA e : <<e[1], e[3]>>, LAMBDA e : e[4])
BThresh(f, b) == Norm([x \in DOMAIN b |-> FThresh(f, b[x])])
BCount(b) == BMap(LAMBDA x : <<x[1] * 10 + x[2], b[x]>>, [x \in DOMAIN b |-> 1])
BDistinct(b) == [x \in DOMAIN b |-> 1]

(* The largest time s with Delay(f, s) <= t, or << >> when there is none.                      *)
DelayInv(f, t) ==
    CASE f = "plus1" -> IF \E i \in DOMAIN t : t[i] < 1 THEN << >> ELSE [i \in DOMAIN t |-> t[i] - 1]
      [] f = "even"  -> [i \in DOMAIN t |-> (t[i] \div 2) * 2]
      [] f = "join2" -> IF \E i \in DOMAIN t : t[i] < 2 THEN << >> ELSE t

Lookup(f, p, a, t, one) ==
    LET I == {i \in DOMAIN p : Leq(p[i][2], t)}
        A == [s \in {p[i][2] : i \in I} |-> LET acc == AccAt(a, s) IN IF one THEN [x \in DOMAIN acc |-> 1] ELSE acc]
        E == UNION {{<<i, y>> : y \in {z \in DOMAIN A[p[i][2]] : z[1] = p[i][1][1]}} : i \in I}
    IN GroupSum(E, LAMBDA e : FJoin2(f, p[e[1]][1][1], p[e[1]][1][2], e[2][2]), LAMBDA e : p[e[1]][3] * A[p[e[1]][2]][e[2]])
HalfJoin(f, p, a, t, strict) ==
    LET E == {e \in {i \in DOMAIN p : Leq(p[i][2], t)} \X {j \in DOMAIN a : Leq(a[j][2], t)} :
                 /\ p[e[1]][1][1] = a[e[2]][1][1]
                 /\ LexLeq(a[e[2]][2], p[e[1]][2])
                 /\ strict => a[e[2]][2] # p[e[1]][2]}
    IN GroupSum(E, LAMBDA e : FJoin2(f, p[e[1]][1][1], p[e[1]][1][2], a[e[2]][1][2]), LAMBDA e : p[e[1]][3] * a[e[2]][3])
(* The latest value upserted for each key, the greatest among those tied; 0 stands for removal.               *)
Upsert(a, t) ==
    LET I == {i \in DOMAIN a : Leq(a[i][2], t)}
        last(k) == SetMax({a[i][2][1] : i \in {j \in I : a[j][1][1] = k}})
        val(k) == LET m == last(k) IN SetMax({a[i][1][2] : i \in {j \in I : a[j][1][1] = k /\ a[j][2][1] = m}})
    IN [x \in {y \in {<<k, val(k)>> : k \in {a[i][1][1] : i \in I}} : y[2] # 0} |-> 1]
Triangles(x, y, z) ==
    LET E == {e \in (DOMAIN x) \X (DOMAIN y) : e[1][2] = e[2][1] /\ <<e[1][1], e[2][2]>> \in DOMAIN z}
    IN GroupSum(E, LAMBDA e : <<e[1][1], e[1][2] * 10 + e[2][2]>>, LAMBDA e : x[e[1]] * y[e[2]] * z[<<e[1][1], e[2][2]>>])

(* --- Library algorithms, by what they compute (of non-negative collections). -------------------------------- *)
Succ(E, S) == {x[2] : x \in {e \in E : e[1] \in S}}
(* Distances in hops, by breadth-first search; D maps nodes to distances of up to n.                          *)
RECURSIVE Dist(_, _, _)
Dist(E, D, n) ==
    LET new == Succ(E, {x \in DOMAIN D : D[x] = n}) \ DOMAIN D
    IN IF new = {} THEN D ELSE Dist(E, [x \in DOMAIN D \cup new |-> IF x \in DOMAIN D THEN D[x] ELSE n + 1], n + 1)
From(E, S) == Dist(E, [x \in S |-> 0], 0)
Bfs(edges, roots) ==
    LET D == From(DOMAIN edges, {x[1] : x \in DOMAIN roots}) IN [x \in {<<n, D[n]>> : n \in DOMAIN D} |-> 1]
Bidijkstra(edges, goals) ==
    LET G == {g \in DOMAIN goals : g[2] \in DOMAIN From(DOMAIN edges, {g[1]})}
    IN GroupSum(G, LAMBDA g : <<g[1] * 10 + g[2], From(DOMAIN edges, {g[1]})[g[2]]>>, LAMBDA g : goals[g])
(* The least label of the nodes from which each node can be reached.                                          *)
Propagate(edges, labels) ==
    LET R == [n \in {x[1] : x \in DOMAIN labels} |-> DOMAIN From(DOMAIN edges, {n})]
        L(n) == {x[2] : x \in {y \in DOMAIN labels : n \in R[y[1]]}}
    IN [x \in {<<n, SetMin(L(n))>> : n \in UNION {R[m] : m \in DOMAIN R}} |-> 1]
(* Edges within strongly connected components.                                                                *)
Strong(edges) == BFilter(LAMBDA e : e[1] \in DOMAIN From(DOMAIN edges, {e[2]}), edges)
(* States assigned in the order of nodes: from new states of lesser neighbours and old states of greater ones. *)
RECURSIVE Assign(_, _, _, _)
Assign(todo, done, state, edges) ==
    IF todo = {} THEN done
    ELSE LET n == SetMin(todo)
             M == {<<m, done[m], edges[<<m, n>>]>> : m \in {x \in DOMAIN done : <<x, n>> \in DOMAIN edges}}
                  \cup {<<x[1], x[2], edges[<<x[1], n>>] * state[x]>> : x \in {y \in DOMAIN state : y[1] > n /\ <<y[1], n>> \in DOMAIN edges}}
             new == (n + SumOver(M, LAMBDA x : x[2] * x[3])) % 7
         IN Assign(todo \ {n}, IF M = {} THEN done ELSE [x \in DOMAIN done \cup {n} |-> IF x = n THEN new ELSE done[x]], state, edges)
InTurn(state, edges) ==
    LET D == Assign({e[2] : e \in DOMAIN edges}, << >>, state, edges) IN [x \in {<<n, D[n]>> : n \in DOMAIN D} |-> 1]
(* For each sequence (k % 2) and position (k \div 2) asked for, the values at lesser positions, in their order. *)
PrefixSum(vals, asked) ==
    LET before(k) == SetToSortSeq({x \in DOMAIN vals : x[1] % 2 = k % 2 /\ x[1] < k}, LAMBDA x, y : x[1] < y[1])
        code(k) == FoldLeft(LAMBDA a, x : a * 6 + x[2], 1, before(k))
    IN GroupSum(DOMAIN asked, LAMBDA x : <<x[1], code(x[1])>>, LAMBDA x : asked[x])
(* A collection in which each record of another carries an identifier of its own.                             *)
Identified(out, src) ==
    /\ BMap(LAMBDA x : x[1], out) = BMap(LAMBDA x : x[1] * 10 + x[2], src)
    /\ \A x, y \in DOMAIN out : (x[1] = y[1]) <=> (x[2] = y[2])

RECURSIVE Eval(_, _, _, _), EvalFix(_, _, _, _, _), Iterate(_, _, _, _, _), ConcatAll(_, _, _, _, _)
Eval(e, ins, t, env) ==
    LET sub(i) == Eval(e[i], ins, t, env)
        op == e[1] IN
    CASE op = "in"       -> AccAt(ins[e[2] + 1], t)
      [] op = "var"      -> env[Len(env) - e[2]][e[3] + 1]
      [] op \in {"map", "mapip"} -> BMap(LAMBDA x : FMap(e[2], x), sub(3))
      [] op = "filter"   -> BFilter(LAMBDA x : FFilter(e[2], x), sub(3))
      [] op = "flat"     -> BFlat(LAMBDA x : FFlat(e[2], x), sub(3))
      [] op \in {"explode", "joinfn"} -> BFlat(LAMBDA x : FExplode(e[2], x), sub(3))
      [] op = "concat"   -> BPlus(sub(2), sub(3))
      [] op = "concats"  -> BPlus(sub(2), ConcatAll(e[3], 1, ins, t, env))
      [] op = "neg"      -> BNeg(sub(2))
      [] op \in {"consol", "consolstream", "region", "inner", "enterat"} -> sub(2)
      [] op = "delay"    -> LET s == DelayInv(e[2], t)
                            IN IF s = << >> THEN NoRows ELSE Eval(e[3], ins, s, env)
      [] op = "join"     -> BJoin(LAMBDA k, v, w : FJoin2(e[2], k, v, w), sub(3), sub(4))
      [] op = "joinplain" -> BJoin(LAMBDA k, v, w : FJoin2("kp", k, v, w), sub(2), sub(3))
      [] op = "semijoin" -> BJoin(LAMBDA k, v, w : <<k, v>>, sub(2), BMap(LAMBDA x : <<x[1], 0>>, sub(3)))
      [] op = "antijoin" -> BMinus(sub(2), BJoin(LAMBDA k, v, w : <<k, v>>, sub(2), BMap(LAMBDA x : <<x[1], 0>>, sub(3))))
      [] op = "reduce"   -> BReduce(e[2], sub(3))
      [] op = "distinct" -> BDistinct(sub(2))
      [] op = "threshold" -> BThresh(e[2], sub(3))
      [] op = "count"    -> BCount(sub(2))
      [] op = "none"     -> NoRows
      \* alternative implementations of the third element
      [] op = "v"        -> sub(3)
      \* each update of an input matched with what another holds at the update's time
      [] op \in {"lookup", "lookup1"} -> Lookup(e[2], ins[e[3][2] + 1], ins[e[4][2] + 1], t, op = "lookup1")
      \* each update of an input matched with another's updates that precede it in the total order
      [] op \in {"halflt", "halfle"}  -> HalfJoin(e[2], ins[e[3][2] + 1], ins[e[4][2] + 1], t, op = "halflt")
      [] op = "upsert"   -> Upsert(ins[e[2][2] + 1], t)
      [] op = "bfs"      -> Bfs(sub(2), sub(3))
      [] op = "bidij"    -> Bidijkstra(sub(2), sub(3))
      [] op = "propag"   -> Propagate(sub(2), sub(3))
      [] op = "scc"      -> Strong(sub(2))
      [] op = "seq"      -> InTurn(sub(2), sub(3))
      [] op = "psum"     -> PrefixSum(sub(2), sub(3))
      \* what an interpreted program exports, of rows that are pairs of integers
      [] op = "interp"   -> IMeaning(e[2], e[3], [input |-> [j \in DOMAIN ins |-> BMap(LAMBDA x : <<<<"t", IInt(x[1]), IInt(x[2])>>, IUnit>>, AccAt(ins[j], t))]])
      [] op = "tri"      -> Triangles(sub(2), sub(3), sub(4))
      [] op = "iterate"  -> EvalFix(<<e[2]>>, <<sub(3)>>, ins, t, env)[1]
      [] op = "iterate0" -> EvalFix(<<e[2]>>, <<NoRows>>, ins, t, env)[1]
      [] op = "fix"      -> EvalFix(e[2], [i \in DOMAIN e[3] |-> Eval(e[3][i], ins, t, env)], ins, t, env)[e[4] + 1]
ConcatAll(es, i, ins, t, env) ==
    IF i > Len(es) THEN NoRows ELSE BPlus(Eval(es[i], ins, t, env), ConcatAll(es, i + 1, ins, t, env))
(* Synchronous iteration of all variables from their sources to a fixpoint. *)
EvalFix(bodies, xs, ins, t, env) ==
    LET ys == [i \in DOMAIN bodies |-> Eval(bodies[i], ins, t, Append(env, xs))]
    IN IF ys = xs THEN xs ELSE EvalFix(bodies, ys, ins, t, env)
Iterate(body, x, ins, t, env) == EvalFix(<<body>>, <<x>>, ins, t, env)
============================================================================
