----------------------------- MODULE DDAlgoMC ------------------------------
(* The library's iterative algorithms, round by round, on every small input:  *)
(* each converges, and to what DDProg defines.  Differential execution is     *)
(* exact for whatever the rounds compute (DDFlow), so these are the steps     *)
(* that lead from there to the textbook results.                              *)
EXTENDS DDProg
CONSTANTS Nodes, MaxEdges, Modulus
VARIABLES which, edges, more, x, round
vars == <<which, edges, more, x, round>>

Ones(S) == [y \in S |-> 1]
Pairs == Nodes \X Nodes
Graphs == {Ones(S) : S \in {P \in SUBSET Pairs : Cardinality(P) <= MaxEdges}}
(* Rows: the edges in the first, whatever else is needed in the second.        *)
Second(w) ==
    CASE w = "bfs" -> {Ones({<<n, 0>> : n \in S}) : S \in SUBSET Nodes}
      [] w = "bidij" -> {Ones(S) : S \in {P \in SUBSET Pairs : Cardinality(P) <= 2}}
      [] w = "propag" -> {Ones(S) : S \in {P \in SUBSET Pairs : Cardinality(P) <= 2}}
      [] w = "scc" -> {NoRows}
      [] w = "seq" -> {Ones({<<n, f[n]>> : n \in DOMAIN f}) : f \in [Nodes -> {1, 2}]}
      [] w = "psum" -> {Ones({<<n, 0>> : n \in S}) : S \in SUBSET (0 .. 2 * Cardinality(Nodes))}
      [] w = "ident" -> {NoRows}
None == -1
MinOf(S, key(_), val(_)) == [k \in {key(y) : y \in S} |-> SetMin({val(y) : y \in {z \in S : key(z) = k}})]
E == DOMAIN edges

(* --- breadth-first distances: least of the proposals of neighbours and roots - *)
BfsRound(D) == MinOf({<<e[2], D[e[1]] + 1>> : e \in {f \in E : f[1] \in DOMAIN D}} \cup {<<r[1], 0>> : r \in DOMAIN more}, LAMBDA y : y[1], LAMBDA y : y[2])
(* --- labels -------------------------------------------------------------------- *)
LabelRound(G, init, L) == MinOf({<<e[2], L[e[1]]>> : e \in {f \in G : f[1] \in DOMAIN L}} \cup init, LAMBDA y : y[1], LAMBDA y : y[2])
RECURSIVE Labels(_, _, _)
Labels(G, init, L) == LET M == LabelRound(G, init, L) IN IF M = L THEN L ELSE Labels(G, init, M)
(* --- strong components: keep the edges whose ends agree on the least node that    *)
(* reaches them, alternately forwards and backwards.                              *)
Trim(cycle, es) ==
    LET L == Labels(cycle, {<<e[2], e[2]>> : e \in es}, << >>)
    IN {<<e[2], e[1]>> : e \in {f \in es : f[1] \in DOMAIN L /\ f[2] \in DOMAIN L /\ L[f[1]] = L[f[2]]}}
SccRound(S) == Trim(Trim(S, E), {<<e[2], e[1]>> : e \in E})
(* --- bidirectional search: <<forward, reverse>> functions of <<node, root>>        *)
Meets(F, R) == MinOf({<<<<a[2], b[2]>>, F[a] + R[b]>> : <<a, b>> \in {p \in (DOMAIN F) \X (DOMAIN R) : p[1][1] = p[2][1] /\ <<p[1][2], p[2][2]>> \in DOMAIN more}},
                     LAMBDA y : y[1], LAMBDA y : y[2])
Grow(F, G, active) ==
    MinOf({<<<<e[2], a[2]>>, F[a] + 1>> : <<a, e>> \in {p \in (DOMAIN F) \X G : p[1][1] = p[2][1] /\ p[1][2] \in active}} \cup {<<a, F[a]>> : a \in DOMAIN F},
          LAMBDA y : y[1], LAMBDA y : y[2])
BidiRound(s) ==
    LET todo == DOMAIN more \ DOMAIN Meets(s[1], s[2])
    IN <<Grow(s[1], E, {g[1] : g \in todo}), Grow(s[2], {<<e[2], e[1]>> : e \in E}, {g[2] : g \in todo})>>
(* --- states in turn: a node fires once all lesser neighbours have                *)
SeqRound(N) ==
    LET ahead == {<<e[2], N[e[1]], 1, <<e[1], 0, 0>>>> : e \in {f \in E : f[1] < f[2] /\ f[1] \in DOMAIN N}}
        back == {<<e[1][2], e[2][2], 1, <<e[1][1], 1, e[2][2]>>>> : e \in {p \in E \X DOMAIN more : p[1][1] > p[1][2] /\ p[1][1] = p[2][1]}}
        waits == {m[1] : m \in {a \in ahead : a[2] = None}}
        heard == {m \in ahead \cup back : m[1] \notin waits}
    IN [n \in waits \cup {m[1] : m \in heard} |-> IF n \in waits THEN None ELSE (n + SumOver({m \in heard : m[1] = n}, LAMBDA y : y[2] * y[3])) % 7]
(* --- prefix sums: aggregates of aligned intervals of power-of-two widths, then     *)
(* each position assembles those its binary representation calls for.               *)
Pow(i) == 2 ^ i
Cat(a, b) == a \o b
PVals == {<<n, SetMax({v[2] : v \in {e \in E : e[1] = n}})>> : n \in {e[1] : e \in E}}
Width == 4
RECURSIVE Sums(_, _)
(* Interval <<position, log>> to its aggregate, one width after another.           *)
Sums(log, have) ==
    IF log = Width THEN have
    ELSE LET P == {p[1] \div 2 : p \in {q \in DOMAIN have : q[2] = log}}
             up(p) == LET kids == {q \in DOMAIN have : q[2] = log /\ q[1] \div 2 = p}
                      IN FoldLeft(LAMBDA a, q : Cat(a, have[q]), << >>, SetToSortSeq(kids, LAMBDA a, b : a[1] < b[1]))
         IN Sums(log + 1, [q \in DOMAIN have \cup {<<p, log + 1>> : p \in P} |-> IF q \in DOMAIN have THEN have[q] ELSE up(q[1])])
Bits(k) == {i \in 0 .. Width - 1 : (k \div Pow(i)) % 2 = 1}
Wanted == UNION {{<<r[1] \div Pow(i) - 1, i>> : i \in Bits(r[1])} : r \in DOMAIN more}
SumRound(S) ==
    LET have == Sums(0, [q \in {<<v[1], 0>> : v \in PVals} |-> << (CHOOSE v \in PVals : v[1] = q[1])[2] >>])
        val(q) == IF q \in DOMAIN have THEN have[q] ELSE << >>
    IN {<<0, << >>>>} \cup {<<(p[1][1] + 1) * Pow(p[1][2]), Cat(p[2][2], val(p[1]))>> : p \in {y \in Wanted \X S : y[1][1] * Pow(y[1][2]) = y[2][1]}}
SumMeans(k) == LET s == SetToSortSeq({v \in PVals : v[1] < k}, LAMBDA a, b : a[1] < b[1]) IN [j \in DOMAIN s |-> s[j][2]]
(* --- identifiers: records of equal hash contend in rounds                         *)
Code(e) == e[1] * 10 + e[2]
Hash(p) == <<p[1], p[2] % Modulus>>      \* of <<round, record>>
IdentRound(P) ==
    LET all == P \cup {<<0, Code(e)>> : e \in {f \in E : \A p \in P : p[2] # Code(f)}}   \* those that moved on withdrew their first
        wins(p) == \A q \in all : Hash(q) = Hash(p) => LexLeq(p, q)
        lost == {p \in all : ~wins(p)}
    IN {<<p[1], p[2]>> : p \in {q \in all : wins(q) /\ q[1] > 0}} \cup {<<p[1] + 1, p[2]>> : p \in lost}
Names(P) == LET moved == {p[2] : p \in P} IN {<<p[2], Hash(p)>> : p \in P} \cup {<<Code(e), Hash(<<0, Code(e)>>)>> : e \in {f \in E : Code(f) \notin moved}}

Start(w) == CASE w = "bfs" -> << >> [] w = "propag" -> << >> [] w = "scc" -> E
              [] w = "bidij" -> <<[p \in {<<g[1], g[1]>> : g \in DOMAIN more} |-> 0], [p \in {<<g[2], g[2]>> : g \in DOMAIN more} |-> 0]>>
              [] w = "seq" -> [n \in {r[1] : r \in DOMAIN more} |-> None]
              [] w = "psum" -> {<<0, << >>>>} [] w = "ident" -> {}
Round(w, y) == CASE w = "bfs" -> BfsRound(y) [] w = "propag" -> LabelRound(E, DOMAIN more, y) [] w = "scc" -> SccRound(y)
                 [] w = "bidij" -> BidiRound(y) [] w = "seq" -> SeqRound(y) [] w = "psum" -> SumRound(y) [] w = "ident" -> IdentRound(y)
Result(w, y) == CASE w = "bfs" -> [r \in {<<n, y[n]>> : n \in DOMAIN y} |-> 1] = Bfs(edges, more)
                 [] w = "propag" -> [r \in {<<n, y[n]>> : n \in DOMAIN y} |-> 1] = Propagate(edges, more)
                 [] w = "scc" -> Ones(y) = Strong(edges)
                 [] w = "bidij" -> LET M == Meets(y[1], y[2]) IN [r \in {<<g[1] * 10 + g[2], M[g]>> : g \in DOMAIN M} |-> 1] = Bidijkstra(edges, more)
                 [] w = "seq" -> [r \in {<<n, y[n]>> : n \in DOMAIN y} |-> 1] = InTurn(more, edges)
                 [] w = "psum" -> \A r \in DOMAIN more : \E s \in y : s[1] = r[1] /\ s[2] = SumMeans(r[1]) /\ \A q \in y : q[1] = r[1] => q = s
                 [] w = "ident" -> Identified([r \in Names(y) |-> 1], edges)

Kinds == {"bfs", "bidij", "propag", "scc", "seq", "psum", "ident"}
Init == /\ which \in Kinds /\ edges \in Graphs /\ more \in Second(which) /\ x = Start(which) /\ round = 0
Step == /\ Round(which, x) # x /\ x' = Round(which, x) /\ round' = round + 1 /\ UNCHANGED <<which, edges, more>>
Next == Step
Spec == Init /\ [][Next]_vars
Converges == round <= 3 * Cardinality(Nodes) + 4
Correct == Round(which, x) = x => Result(which, x)
============================================================================
