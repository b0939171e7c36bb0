---------------------------- MODULE DDExplainMC ----------------------------
(* The rows that a result is due to, on every small graph: they suffice for   *)
(* it, without them it is not there, and for paths they are the edges of paths. *)
EXTENDS DDInterpMC, DDExplain

Twos == << <<"export", "out", Via(Swap(I0), I0)>> >>
Exploded == << <<"let", "l", <<"flatmap", I0, <<"list", << <<"proj", <<"var", 1>>, 0>>, <<"proj", <<"var", 0>>, 0>> >>>>>>>>,
               <<"export", "out", <<"join", N("l"), N("l"), <<V(0), <<"tuple", << <<"proj", <<"var", 1>>, 1>>, <<"proj", <<"var", 2>>, 1>> >>>> >>>>>> >>
Exactly == [XSrc(<<In>>) EXCEPT !.exact = TRUE]
Due(prog, q) == TLCEval(<<XInputs(XCauses(prog, "out", Exactly, {q}), 1)>>)
Explained(prog) ==
    \A q \in DOMAIN Out(prog) :
        LET D == Due(prog, q) IN
        /\ Grounded(<<In>>, D) /\ Relevant(prog, "out", <<In>>, {q}, D)
        /\ Sufficient(prog, "out", <<In>>, {q}, D)
        /\ ~Sufficient(prog, "out", <<In>>, {q}, <<DOMAIN In \ D[1]>>)
Explains == Explained(Closure) /\ Explained(Twos) /\ Explained(Exploded)
(* What a path from a to b is due to are edges on ways from a to b. *)
Reaches(a, b) == a = b \/ <<a, b>> \in Paths
Ways == \A p \in Paths : Due(Closure, Row(p))[1] = {Row(e) : e \in {x \in edges : Reaches(p[1], x[1]) /\ Reaches(x[2], p[2])}}
Hops == \A q \in DOMAIN Out(Twos) : Due(Twos, q)[1] = {Row(e) : e \in UNION {{<<f[1], f[2]>>, <<g[1], g[2]>>} : <<f, g>> \in
            {<<f, g>> \in edges \X edges : f[2] = g[1] /\ q = <<Nat1(f[1]), Nat1(g[2])>>}}}
============================================================================
