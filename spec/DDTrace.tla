------------------------------ MODULE DDTrace ------------------------------
(* An arrangement: a stream of batches, a shared trace of the same batches,  *)
(* the handles that read it and the imports that replay it.                  *)
(*                                                                           *)
(* The contents of batches, traces and imports are determined by the updates *)
(* the arrangement accepted; a trace may merge batches and advance times, but *)
(* only as far as every live handle allows.                                  *)
EXTENDS DDBag

VARIABLES src,     \* updates accepted by the arrangement
          infr,    \* frontier of the arrangement's input
          supper,  \* upper frontier of the batches sent downstream
          tupper,  \* upper frontier of the trace, as last observed
          bounds,  \* boundaries between batches observed so far
          holds,   \* live handles: [log, phy] frontiers they hold
          imps     \* imports
traceVars == <<src, infr, supper, tupper, bounds, holds, imps>>

TraceInit(zero) ==
    /\ src = << >> /\ infr = {zero} /\ supper = {zero} /\ tupper = {zero} /\ bounds = {{zero}}
    /\ holds = [h \in {0} |-> [log |-> {zero}, phy |-> {zero}]]
    /\ imps = << >>

(* --- updates of an interval, and their compaction ----------------------- *)
Within(lo, up, t) == Beyond(lo, t) /\ ~Beyond(up, t)
Between(ups, lo, up) == SelectSeq(ups, LAMBDA u : Within(lo, up, u[2]))
RepSeq(ups, F) == [j \in DOMAIN ups |-> <<ups[j][1], Rep(ups[j][2], F), ups[j][3]>>]
(* The accumulations at every time in advance of F determine, and are        *)
(* determined by, the updates with times advanced to F.                      *)
(* An empty frontier promises nothing.                                        *)
SameFrom(F, a, b) == IF F = {} THEN TRUE ELSE UpdBag(RepSeq(a, F)) = UpdBag(RepSeq(b, F))
Same(a, b) == UpdBag(a) = UpdBag(b)

RowLeq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
RowLt(a, b) == a # b /\ RowLeq(a, b)
(* Sorted by row and then time, every entry distinct and non-zero.           *)
WellFormed(c) ==
    /\ \A j \in DOMAIN c : c[j][3] # 0
    /\ \A j \in 1 .. Len(c) - 1 : \/ RowLt(c[j][1], c[j + 1][1])
                                  \/ c[j][1] = c[j + 1][1] /\ LexLt(c[j][2], c[j + 1][2])
RowsSorted(c) == \A j \in 1 .. Len(c) - 1 : RowLeq(c[j][1], c[j + 1][1])
Nothing(lo, up) == Same(<< >>, Between(src, lo, up))
NothingFrom(F, lo, up) == SameFrom(F, << >>, Between(src, lo, up))

(* --- the arrangement ------------------------------------------------------ *)
Feed(ups) ==
    /\ \A j \in DOMAIN ups : Beyond(infr, ups[j][2])
    /\ src' = src \o ups
    /\ UNCHANGED <<infr, supper, tupper, bounds, holds, imps>>
Promise(f) ==
    /\ FLeq(infr, f) /\ infr' = f
    /\ UNCHANGED <<src, supper, tupper, bounds, holds, imps>>
SeenUpper(u) == FLeq(tupper, u) /\ FLeq(u, infr)
(* A batch reaches the arrangement's consumers; by then the trace holds it.   *)
Batch(lo, up, since, cap, n, content, seen) ==
    /\ lo # up /\ FLeq(lo, up) /\ FLeq(up, infr) /\ IsAntichain(lo) /\ IsAntichain(up)
    /\ FLeq(supper, lo) /\ Nothing(supper, lo)
    /\ \A s \in since : Leq(s, [j \in DOMAIN s |-> 0])
    /\ WellFormed(content) /\ n = Len(content)
    /\ Same(content, Between(src, lo, up))
    /\ \A j \in DOMAIN content : Leq(cap, content[j][2])
    /\ \A u \in ToSet(seen) : SeenUpper(u) /\ FLeq(up, u)
    /\ supper' = up
    /\ tupper' = IF FLeq(up, tupper) THEN tupper ELSE up
    /\ bounds' = bounds \cup {lo, up}
    /\ UNCHANGED <<src, infr, holds, imps>>
(* A batch is put into a trace directly.                                      *)
Insert(lo, up, ups) ==
    /\ lo = tupper
    /\ src' = src \o ups
    /\ infr' = up /\ tupper' = up /\ supper' = up
    /\ bounds' = bounds \cup {up}
    /\ UNCHANGED <<holds, imps>>

(* --- handles --------------------------------------------------------------- *)
Clone(h, from) == /\ h \notin DOMAIN holds
                  /\ holds' = [x \in DOMAIN holds \cup {h} |-> IF x = h THEN holds[from] ELSE holds[x]]
                  /\ UNCHANGED <<src, infr, supper, tupper, bounds, imps>>
Drop(h) == /\ holds' = [x \in DOMAIN holds \ {h} |-> holds[x]]
           /\ UNCHANGED <<src, infr, supper, tupper, bounds, imps>>
(* A handle's frontiers only advance, and it is told where they are.          *)
Logical(h, f, got) == /\ got = FJoin(holds[h].log, f)
                      /\ holds' = [holds EXCEPT ![h].log = got]
                      /\ UNCHANGED <<src, infr, supper, tupper, bounds, imps>>
Physical(h, f, got) == /\ got = FJoin(holds[h].phy, f)
                       /\ holds' = [holds EXCEPT ![h].phy = got]
                       /\ UNCHANGED <<src, infr, supper, tupper, bounds, imps>>
(* A read at a boundary beyond the handle's physical frontier succeeds, and   *)
(* is correct at all times beyond its logical frontier.                       *)
Readable(h, cut) == cut \in bounds \cup {{}} /\ FLeq(holds[h].phy, cut)
Read(h, cut, upper, ok, content) ==
    /\ SeenUpper(upper) /\ tupper' = upper
    /\ Readable(h, cut) => ok
    /\ ok => /\ RowsSorted(content)
             /\ SameFrom(holds[h].log, content, SelectSeq(src, LAMBDA u : ~Beyond(cut, u[2]) /\ ~Beyond(upper, u[2])))
    /\ UNCHANGED <<src, infr, supper, bounds, holds, imps>>
(* The batches of the trace, at rest.                                         *)
Contiguous(ds) ==
    /\ \A j \in DOMAIN ds : ds[j].lower # ds[j].upper /\ FLeq(ds[j].lower, ds[j].upper)
    /\ \A j \in 1 .. Len(ds) - 1 : ds[j].upper = ds[j + 1].lower
StoreOk(ds, upper) ==
    /\ Contiguous(ds)
    /\ IF ds = << >> THEN \A u \in upper : Leq(u, [j \in DOMAIN u |-> 0])
       ELSE ds[Len(ds)].upper = upper /\ \A l \in ds[1].lower : Leq(l, [j \in DOMAIN l |-> 0])
    /\ \A j \in DOMAIN ds :
          /\ \A h \in DOMAIN holds : FLeq(ds[j].since, holds[h].log)
          /\ WellFormed(ds[j].content) /\ ds[j].len = Len(ds[j].content)
          /\ ds[j].since # {} => Same(ds[j].content, RepSeq(Between(src, ds[j].lower, ds[j].upper), ds[j].since))
    /\ \A b \in bounds : (\E h \in DOMAIN holds : FLeq(holds[h].phy, b)) =>
          IF ds = << >> THEN TRUE ELSE b = ds[1].lower \/ (\E j \in DOMAIN ds : b = ds[j].upper) \/ ~FLeq(b, upper)
Store(ds, upper) ==
    /\ SeenUpper(upper) /\ tupper' = upper
    /\ IF StoreOk(ds, upper) THEN TRUE ELSE FALSE   \* decided at once, not branch by branch
    /\ bounds' = bounds \cup {ds[j].upper : j \in DOMAIN ds}
    /\ UNCHANGED <<src, infr, supper, holds, imps>>

(* Advancing a frontier over a trace skips only intervals without updates.     *)
AdvanceUpper(f, got) ==
    /\ FLeq(f, got) /\ (FLeq(got, tupper) \/ got = f)
    /\ \A h \in DOMAIN holds : NothingFrom(holds[h].log, f, got)
    /\ UNCHANGED traceVars
(* With no reader in the way a trace is kept in few batches: the number of them *)
(* is logarithmic in the updates, and in the virtual updates of exertion.       *)
Shape(n, weight) ==
    /\ IF n <= 3 THEN TRUE ELSE 2 ^ ((2 * n - 6) \div 3) <= weight
    /\ UNCHANGED traceVars
(* Exerted until it wants no more, it holds at most one batch of updates.       *)
Forced(done, nonempty) == done /\ nonempty <= 1 /\ UNCHANGED traceVars
(* An arrangement told to merge when idle, once idle, holds several batches of  *)
(* updates only where the physical frontier of a live handle keeps them apart.  *)
Merged(ds) ==
    /\ Cardinality({j \in DOMAIN ds : ds[j].len > 0 /\ \A h \in DOMAIN holds : FLeq(ds[j].upper, holds[h].phy)}) <= 1
    /\ UNCHANGED traceVars
(* The log of batches, merges and drops adds up to what is held.                *)
Logged(total, held) == total = held /\ UNCHANGED traceVars

(* --- imports ----------------------------------------------------------------- *)
Import(j, h, limited, since, until, zero) ==
    /\ j = Len(imps) + 1
    /\ imps' = Append(imps, [log |-> holds[h].log, limited |-> limited, since |-> since, until |-> until,
                             upto |-> {zero}, fr |-> {zero}, down |-> FALSE])
    /\ UNCHANGED <<src, infr, supper, tupper, bounds, holds>>
Presented(m, ups) == IF m.limited THEN SelectSeq(RepSeq(ups, m.since), LAMBDA u : ~Beyond(m.until, u[2])) ELSE ups
ImportBatch(j, lo, up, since, cap, content) ==
    LET m == imps[j] IN
    /\ ~m.down
    /\ lo # up /\ FLeq(lo, up) /\ FLeq(up, infr)
    /\ FLeq(m.upto, lo) /\ NothingFrom(m.log, m.upto, lo)
    /\ FLeq(since, m.log)
    /\ LET want == Presented(m, Between(src, lo, up)) IN IF m.log = {} THEN TRUE ELSE IF m.limited THEN Same(content, want) ELSE SameFrom(m.log, content, want)
    /\ Beyond(m.fr, cap) /\ \A x \in DOMAIN content : Leq(cap, content[x][2])
    /\ imps' = [imps EXCEPT ![j].upto = up]
    /\ UNCHANGED <<src, infr, supper, tupper, bounds, holds>>
(* An import passes only times whose updates it has delivered.                  *)
Passes(m, f) ==
    \/ FLeq(f, infr) /\ NothingFrom(m.log, m.upto, f)
    \/ m.limited /\ FLeq(m.until, infr) /\ NothingFrom(m.log, m.upto, m.until)
ImportFrontier(j, f) ==
    LET m == imps[j] IN
    /\ FLeq(m.fr, f)
    /\ m.down \/ Passes(m, f)
    /\ imps' = [imps EXCEPT ![j].fr = f]
    /\ UNCHANGED <<src, infr, supper, tupper, bounds, holds>>
(* A read of all of a limited import's trace.                                    *)
LimitedRead(j, upper, ok, content) ==
    /\ SeenUpper(upper) /\ tupper' = upper
    /\ ok
    /\ RowsSorted(content)
    /\ imps[j].log = {} \/ Same(content, Presented(imps[j], SelectSeq(src, LAMBDA u : ~Beyond(upper, u[2]))))
    /\ UNCHANGED <<src, infr, supper, bounds, holds, imps>>
Shutdown(j) == imps' = [imps EXCEPT ![j].down = TRUE] /\ UNCHANGED <<src, infr, supper, tupper, bounds, holds>>

(* When nothing moves any more everything has caught up.                        *)
ImportSettled(m) ==
    IF m.down THEN m.fr = {}
    ELSE IF m.limited /\ FLeq(m.until, infr)
         THEN m.fr = {} \/ (m.fr = infr /\ \A t \in infr : \A x \in DOMAIN t : t[x] = 0)   \* before anything is known to be complete it may wait
    ELSE m.fr = infr
Settled(seen) ==
    /\ \A u \in ToSet(seen) : u = infr
    /\ Nothing(supper, infr)
    /\ \A j \in DOMAIN imps : ImportSettled(imps[j])
    /\ UNCHANGED traceVars
============================================================================
