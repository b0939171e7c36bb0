------------------------------ MODULE DDBatch ------------------------------
(* The life of updates before and inside a trace: a batcher buffers them,    *)
(* sealing cuts them by time, builders and mergers turn them into batches,   *)
(* chunk operators cut and recombine them, cursors walk over them.           *)
EXTENDS DDTrace

VARIABLES held,    \* updates in the batcher
          lowerb,  \* frontier of the last seal
          sealed,  \* what the last seal released
          batches, \* batches by name: [lower, upper, since, content]
          curs     \* cursors by name: [rows, kp, vp], rows as below
batchVars == <<held, lowerb, sealed, batches, curs>>

(* Large runs are recorded up to a projection that maps most rows to one.     *)
Rest == <<-1, -1>>
Tracked(c) == SelectSeq(c, LAMBDA u : u[1] # Rest)
RestCount(c) == LET I == {j \in DOMAIN c : c[j][1] = Rest} IN SumOver(I, LAMBDA j : c[j][3])
Proper(c, n) == WellFormed(Tracked(c)) /\ n = Len(Tracked(c)) + RestCount(c)

BatchInit(zero) ==
    /\ held = << >> /\ lowerb = {zero} /\ sealed = << >>
    /\ batches = [b \in {} |-> 0] /\ curs = [c \in {} |-> 0]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

(* --- the batcher --------------------------------------------------------- *)
Push(ups) == /\ held' = held \o ups
             /\ UNCHANGED <<lowerb, sealed, batches, curs>>
(* Distinct updates that do not cancel.                                       *)
Live(ups) == LET B == UpdBag(ups) IN SetToSeq({<<x[1], x[2], B[x]>> : x \in DOMAIN B})
Seal(upper, lo, up, since, content, n, frontier) ==
    LET live == Live(held)
        out  == SelectSeq(live, LAMBDA u : ~Beyond(upper, u[2]))
        kept == SelectSeq(live, LAMBDA u : Beyond(upper, u[2]))
    IN /\ lo = lowerb /\ up = upper /\ \A s \in since : Leq(s, [j \in DOMAIN s |-> 0])
       /\ Proper(content, n)
       /\ Same(content, out)
       /\ frontier = MinElems(Times(kept))
       /\ held' = kept /\ sealed' = content /\ lowerb' = upper
       /\ UNCHANGED <<batches, curs>>

(* --- batches --------------------------------------------------------------- *)
Make(b, ups, lo, up, since, lo2, up2, since2, content, n) ==
    /\ b \notin DOMAIN batches
    /\ lo2 = lo /\ up2 = up /\ since2 = since
    /\ Proper(content, n) /\ Same(content, ups)
    /\ batches' = With(batches, b, [lower |-> lo, upper |-> up, since |-> since, content |-> content])
    /\ UNCHANGED <<held, lowerb, sealed, curs>>
(* The sealed updates, built into a batch.                                     *)
Build(b, lo, up, since, lo2, up2, since2, content, n) == Make(b, sealed, lo, up, since, lo2, up2, since2, content, n)
MergedIs(b, b1, b2, F, lo, up, since, content, n) ==
    LET x == batches[b1]  y == batches[b2] IN
    /\ b \notin DOMAIN batches
    /\ x.upper = y.lower
    /\ lo = x.lower /\ up = y.upper /\ since = F
    /\ Proper(content, n)
    /\ Same(content, IF F = {} THEN content ELSE RepSeq(x.content \o y.content, F))
    /\ batches' = With(batches, b, [lower |-> lo, upper |-> up, since |-> since, content |-> content])
    /\ UNCHANGED <<held, lowerb, sealed, curs>>
(* Reading a batch any time later shows what it held when it was made.         *)
Again(b, content, n) == content = batches[b].content /\ UNCHANGED batchVars

(* --- chunks ------------------------------------------------------------------ *)
(* Sequences of chunks are recorded as sequences of update sequences.           *)
RECURSIVE Flat(_)
Flat(cs) == IF cs = << >> THEN << >> ELSE Head(cs) \o Flat(Tail(cs))
Before(u, v) == RowLt(u[1], v[1]) \/ (u[1] = v[1] /\ LexLt(u[2], v[2]))
AllBefore(as, bs) == IF as = << >> \/ bs = << >> THEN TRUE ELSE Before(as[Len(as)], bs[1])
NonEmpty(cs) == \A j \in DOMAIN cs : cs[j] # << >>
Chain(cs) == NonEmpty(cs) /\ WellFormed(Flat(cs))
(* Merging two chains: what is put out precedes all that remains.               *)
ChunkMerge(a, b, a2, b2, out) ==
    /\ Chain(out) /\ Chain(a2) /\ Chain(b2)
    /\ AllBefore(Flat(out), Flat(a2)) /\ AllBefore(Flat(out), Flat(b2))
    /\ Same(Flat(a) \o Flat(b), Flat(out) \o Flat(a2) \o Flat(b2))
    /\ (Len(a2) < Len(a) \/ Len(b2) < Len(b))
    /\ UNCHANGED batchVars
(* Extraction splits chunks by a frontier and notes the least times kept.       *)
ChunkExtract(a, f, res, a2, keep, ship, res2) ==
    /\ Chain(a2) /\ Chain(keep) /\ Chain(ship)
    /\ Len(Flat(a2)) < Len(Flat(a))
    /\ LET k == Len(Flat(a)) - Len(Flat(a2))
           went == SubSeq(Flat(a), 1, k)
       IN /\ SubSeq(Flat(a), k + 1, Len(Flat(a))) = Flat(a2)
          /\ Flat(keep) = SelectSeq(went, LAMBDA u : Beyond(f, u[2]))
          /\ Flat(ship) = SelectSeq(went, LAMBDA u : ~Beyond(f, u[2]))
          /\ res2 = MinElems(res \cup Times(Flat(keep)))
    /\ UNCHANGED batchVars
(* Advancing rewrites the times of whole (key, value) groups.                    *)
ChunkAdvance(a, f, done, a2, out) ==
    /\ Chain(a2) /\ Chain(out)
    /\ done => a2 = << >>
    /\ LET went == SelectSeq(Flat(a), LAMBDA u : \A j \in DOMAIN Flat(a2) : u[1] # Flat(a2)[j][1])
           rest == SelectSeq(Flat(a), LAMBDA u : \E j \in DOMAIN Flat(a2) : u[1] = Flat(a2)[j][1])
       IN f # {} => /\ Same(Flat(out), RepSeq(went, f))
                    /\ Same(RepSeq(Flat(a2), f), RepSeq(rest, f))
    /\ AllBefore(Flat(out), Flat(a2))
    /\ UNCHANGED batchVars
(* Settling recuts without changing anything.                                    *)
ChunkSettle(a, done, target, prev, a2, out) ==
    LET all == prev \o out IN
    /\ NonEmpty(a2) /\ NonEmpty(out)
    /\ Flat(out) \o Flat(a2) = Flat(a)
    /\ done => a2 = << >>
    /\ \A j \in DOMAIN out : Len(out[j]) <= target
    /\ \A j \in 1 .. Len(all) - 1 : Len(all[j]) + Len(all[j + 1]) > target
    /\ UNCHANGED batchVars

(* --- cursors --------------------------------------------------------------------- *)
(* What a view does to times: nothing, a further coordinate (constant, or one that  *)
(* depends on row and time), or advancement to `since` and restriction to `until`.  *)
ViewTime(w, u) == CASE w[1] = "none"  -> u[2]
                    [] w[1] = "enter" -> Append(u[2], 0)
                    [] w[1] = "at"    -> Append(u[2], (u[1][1] + 2 * u[1][2] + u[2][1]) % 4)
                    [] w[1] = "limit" -> Rep(u[2], w[2])
View(w, c) == LET m == [j \in DOMAIN c |-> <<c[j][1], ViewTime(w, c[j]), c[j][3]>>]
              IN IF w[1] = "limit" THEN SelectSeq(m, LAMBDA u : ~Beyond(w[3], u[2])) ELSE m
SortedSeq(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
KeysOf(c) == SortedSeq({c[j][1][1] : j \in DOMAIN c})
ValsOf(c, k) == SortedSeq({c[j][1][2] : j \in {i \in DOMAIN c : c[i][1][1] = k}})
TimesOf(w, c, k, v) == View(w, SelectSeq(c, LAMBDA u : u[1] = <<k, v>>))
Open(c, bs, w) ==
    LET content == Flat([j \in DOMAIN bs |-> batches[bs[j]].content])
        keys == KeysOf(content)
    IN /\ c \notin DOMAIN curs
       /\ curs' = With(curs, c, [rows |-> content, view |-> w, many |-> Len(bs) # 1, keys |-> keys, vals |-> [i \in DOMAIN keys |-> ValsOf(content, keys[i])],
                                 kp |-> 1, vp |-> 1])
       /\ UNCHANGED <<held, lowerb, sealed, batches>>
KeyValid(s) == s.kp <= Len(s.keys)
ValValid(s) == KeyValid(s) /\ s.vp <= Len(s.vals[s.kp])
(* First position at or after `from` holding at least x.                              *)
FirstAt(xs, from, x) == LET S == {j \in DOMAIN xs : j >= from /\ xs[j] >= x} IN IF S = {} THEN Len(xs) + 1 ELSE CHOOSE j \in S : \A i \in S : j <= i
(* Cursors are only asked to move forward; asked to move back they may stay or go.    *)
Steps(s, op, x) ==
    CASE op = "step_key"    -> {[s EXCEPT !.kp = MinI(@ + 1, Len(s.keys) + 1), !.vp = 1]}
      [] op = "seek_key"    -> {[s EXCEPT !.kp = FirstAt(s.keys, s.kp, x), !.vp = 1], [s EXCEPT !.kp = FirstAt(s.keys, 1, x), !.vp = 1]}
      [] op = "step_val"    -> {[s EXCEPT !.vp = MinI(@ + 1, Len(s.vals[s.kp]) + 1)]}
      [] op = "seek_val"    -> {[s EXCEPT !.vp = FirstAt(s.vals[s.kp], s.vp, x)], [s EXCEPT !.vp = FirstAt(s.vals[s.kp], 1, x)]}
      [] op = "rewind_keys" -> {[s EXCEPT !.kp = 1, !.vp = 1]}
      [] op = "rewind_vals" -> {[s EXCEPT !.vp = 1]}
      [] op = "look"        -> {s}
Backward(s, op, x) == IF op = "seek_key" THEN (IF KeyValid(s) THEN x < s.keys[s.kp] ELSE TRUE)
                      ELSE IF op = "seek_val" THEN (IF ValValid(s) THEN x < s.vals[s.kp][s.vp] ELSE TRUE) ELSE FALSE
Shows(s, kv, vv, times) ==
    /\ kv = (IF KeyValid(s) THEN <<s.keys[s.kp]>> ELSE << >>)
    /\ vv = (IF ValValid(s) THEN <<s.vals[s.kp][s.vp]>> ELSE << >>)
    /\ IF ValValid(s)
       THEN LET k == s.keys[s.kp]  v == s.vals[s.kp][s.vp]
                want == TimesOf(s.view, s.rows, k, v)
                got == [j \in DOMAIN times |-> <<(<<k, v>>), times[j][1], times[j][2]>>]
            IN IF s.many \/ s.view[1] = "limit" THEN Same(got, want) ELSE got = want
       ELSE times = << >>
Move(c, op, x, kv, vv, times) ==
    LET s == curs[c]
        S == {t \in Steps(s, op, x) : Shows(t, kv, vv, times)}
    IN /\ S # {}
       /\ curs' = [curs EXCEPT ![c] = CHOOSE t \in S : TRUE]
       /\ UNCHANGED <<held, lowerb, sealed, batches>>
============================================================================
