---------------------------- MODULE DDInterpMC ----------------------------
(* Interpreted programs on every small graph: what DDInterp takes them to     *)
(* mean is what their authors do.                                             *)
EXTENDS DDInterp
CONSTANTS Nodes, MaxEdges
VARIABLES edges, twice  \* the pairs present, and those of them present twice
vars == <<edges, twice>>

SetMin(S) == CHOOSE m \in S : \A k \in S : m <= k
Nat1(n) == <<"t", IInt(n)>>
Row(e) == <<Nat1(e[1]), Nat1(e[2])>>
In == [x \in {Row(e) : e \in edges} |-> IF \E e \in twice : Row(e) = x THEN 2 ELSE 1]
Rows(S) == [x \in {Row(e) : e \in S} |-> 1]
Src == [input |-> <<In>>, trace |-> [x \in {} |-> NoRows]]

(* Fields of rows, and programs of them.                                      *)
V(n) == <<"tuple", << <<"spread", <<"var", n>>>> >>>>
Nil == <<"tuple", << >>>>
I0 == <<"input", 0>>
N(x) == <<"name", x>>
Union(es) == <<"red", <<"concat", es>>, "distinct">>
(* As a key of both fields: a row with no value.                              *)
AsKey(e) == <<"map", e, << <<"tuple", << <<"spread", <<"var", 0>>>>, <<"spread", <<"var", 1>>>> >>>>, Nil>>>>
First == <<"tuple", << <<"proj", <<"var", 0>>, 0>> >>>>
Second == <<"tuple", << <<"proj", <<"var", 0>>, 1>> >>>>
AsPair(e) == <<"map", e, <<First, Second>>>>
Swap(e) == <<"map", e, <<V(1), V(0)>>>>
Via(a, b) == <<"join", a, b, <<V(1), V(2)>>>>  \* a keyed by what b is keyed by
Along(l, es) == <<"join", l, es, <<V(2), V(1)>>>>
(* The transitive closure. *)
Closure == << <<"scope", "s", << <<"let", "t", AsPair(Union(<<AsKey(I0), AsKey(N("x"))>>))>>,
                                 <<"var", "x", Via(Swap(N("t")), I0)>> >>>>,
              <<"export", "out", <<"qual", "s", "t">>>> >>
(* The least label that reaches each node. *)
Least == << <<"let", "self", <<"map", <<"concat", <<I0, Swap(I0)>>>>, <<V(0), V(0)>>>>>>,
            <<"scope", "s", << <<"let", "l", <<"red", <<"concat", <<N("self"), N("x")>>>>, "min">>>>,
                               <<"var", "x", Along(N("l"), I0)>> >>>>,
            <<"export", "out", <<"qual", "s", "l">>>> >>
(* Edges within components: trimmed by labels, one direction and then the other. *)
Once == AsPair(<<"red", AsKey(I0), "distinct">>)
Labels(name, es, of) ==
    <<"scope", name, << <<"let", "l", <<"red", <<"concat", << <<"map", of, <<V(1), V(1)>>>>, N("x")>>>>, "min">>>>,
                        <<"var", "x", Along(N("l"), es)>> >>>>
(* (a, b) with the labels of both. *)
Same(es, name) ==
    LET l == <<"qual", name, "l">>
        \* keyed by the far end, holding the near end and its label
        far == <<"join", es, l, << V(1), <<"tuple", << <<"spread", <<"var", 0>>>>, <<"spread", <<"var", 2>>>> >>>> >>>>
        both == <<"join", far, l, << <<"tuple", << <<"proj", <<"var", 1>>, 0>>, <<"spread", <<"var", 0>>>> >>>>,
                                     <<"tuple", << <<"proj", <<"var", 1>>, 1>>, <<"spread", <<"var", 2>>>> >>>> >>>>
    IN AsPair(<<"filter", both, <<"==", <<"proj", <<"var", 1>>, 0>>, <<"proj", <<"var", 1>>, 1>>>>>>)
Strong == << <<"let", "e", Once>>,
             <<"scope", "o", << <<"let", "kept", <<"concat", <<N("e"), <<"neg", N("gone")>>>>>>>>,
                                Labels("f", N("kept"), N("kept")),
                                <<"let", "back", Swap(Same(N("kept"), "f"))>>,
                                Labels("b", N("back"), N("back")),
                                <<"let", "next", Swap(Same(N("back"), "b"))>>,
                                <<"var", "gone", <<"concat", <<N("e"), <<"neg", N("next")>>>>>>>> >>>>,
             <<"export", "out", <<"qual", "o", "kept">>>> >>
(* Delays change when rows appear, and not where that leads. *)
Delayed == << <<"scope", "s", << <<"let", "t", AsPair(Union(<<AsKey(<<"enter_at", I0, <<"proj", <<"var", 1>>, 0>>>>), AsKey(N("x"))>>))>>,
                                 <<"var", "x", Via(Swap(N("t")), I0)>> >>>>,
              <<"export", "out", <<"qual", "s", "t">>>> >>
(* Rows with the iteration they first hold at: lengths of shortest paths. *)
Lengths == << <<"scope", "s", << <<"let", "t", AsPair(Union(<<AsKey(I0), AsKey(N("x"))>>))>>,
                                 <<"let", "w", <<"lift_iter", N("t")>>>>,
                                 <<"var", "x", Via(Swap(N("t")), I0)>> >>>>,
              <<"export", "out", <<"qual", "s", "w">>>> >>
Collected == << <<"export", "out", <<"flatmap", <<"red", I0, "collect">>, <<"var", 1>>>>>> >>

(* What is meant. *)
RECURSIVE Close(_)
Close(S) == LET T == S \cup {<<p[1][1], p[2][2]>> : p \in {q \in S \X edges : q[1][2] = q[2][1]}} IN IF T = S THEN S ELSE Close(T)
Paths == TLCEval(Close(edges))
Touched == UNION {{e[1], e[2]} : e \in edges}
RECURSIVE Within(_)
Within(n) == IF n = 1 THEN edges ELSE LET S == Within(n - 1) IN S \cup {<<p[1][1], p[2][2]>> : p \in {q \in S \X edges : q[1][2] = q[2][1]}}
Out(prog) == TLCEval(IMeaning(prog, "out", Src))

Init == edges = {} /\ twice = {}
Next == \/ /\ Cardinality(edges) < MaxEdges /\ twice = {} /\ twice' = {}
           /\ \E e \in (Nodes \X Nodes) \ edges : edges' = edges \cup {e}
        \/ /\ twice = {} /\ edges' = edges
           /\ \E e \in edges : twice' = {e}
Spec == Init /\ [][Next]_vars
Closes == Out(Closure) = Rows(Paths)
Delays == Out(Delayed) = Rows(Paths)
Leasts == Out(Least) = Rows({<<n, SetMin({n} \cup {p[1] : p \in {q \in Paths : q[2] = n}})>> : n \in Touched})
Strongs == Out(Strong) = Rows({e \in edges : <<e[2], e[1]>> \in Paths})
Shortest == Out(Lengths) = [x \in {<<Nat1(p[1]), <<"t", IInt(p[2]), IInt(SetMin({n \in 1 .. Cardinality(Nodes) : p \in Within(n)}) - 1)>>>> : p \in Paths} |-> 1]
(* Each value as often as it is there, in order. *)
Collects ==
    LET b == Out(Collected)
    IN /\ \A x \in DOMAIN b : b[x] = 1
       /\ \A n \in Nodes : LET mine == {x \in DOMAIN b : x[1] = Nat1(n)}
                               all == SumOver({e \in edges : e[1] = n}, LAMBDA e : In[Row(e)])
                           IN /\ {x[2][2][2] : x \in mine} = 0 .. all - 1
                              /\ Cardinality(mine) = all
                              /\ \A e \in edges : e[1] = n => Cardinality({x \in mine : x[2][3] = Nat1(e[2])}) = In[Row(e)]
                              /\ \A x, y \in mine : x[2][2][2] < y[2][2][2] => ~ILess(y[2][3], x[2][3])
==============================================================================
