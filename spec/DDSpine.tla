------------------------------ MODULE DDSpine ------------------------------
(* The merging discipline of a spine: levels of geometric size, each vacant, *)
(* holding one batch, or merging two, where every introduced batch pays fuel *)
(* into the merges in progress.  Checked: no batch ever meets an unfinished  *)
(* merge, batches stay in order and contiguous, their number stays           *)
(* logarithmic, and exertion ends in a single batch.                         *)
(*                                                                           *)
(* A batch is <<lo, hi, len>>: the insertions it covers and how many updates *)
(* it has; None stands for a structurally empty one.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sizes,      \* sizes of inserted batches
          Efforts,    \* efforts of exertion
          Fuels,      \* fuels applied on their own
          Virtuals,   \* levels at which structurally empty batches are introduced
          MaxInserts, MaxOps,
          Effort,     \* the spine's effort
          Cancel      \* how much merging cancels: 0 nothing, 1 half, 2 everything
VARIABLES lv, ok, inserted, weight, ops, hist
vars == <<lv, ok, inserted, weight, ops, hist>>
view == <<lv, ok, inserted, weight, ops>>

None == << >>
Size(b) == IF b = None THEN 0 ELSE b[3]
Lev(k, a, b, left) == [k |-> k, a |-> a, b |-> b, left |-> left]
Vacant == Lev("vacant", None, None, 0)
Single(b) == Lev("single", b, None, 0)
IsDouble(m) == m.k \in {"merging", "merged"}
RECURSIVE Log2Up(_)
Log2Up(n) == IF n <= 1 THEN 0 ELSE 1 + Log2Up((n + 1) \div 2)
Joined(a, b) == <<a[1], b[2], CASE Cancel = 0 -> a[3] + b[3] [] Cancel = 1 -> (a[3] + b[3]) \div 2 [] OTHER -> 0>>
Begin(a, b) == IF a = None THEN Lev("merged", b, None, 0) ELSE IF b = None THEN Lev("merged", a, None, 0)
               ELSE Lev("merging", a, b, a[3] + b[3])

(* A spine in the course of an operation: its levels, and whether all went well. *)
St(l, o) == [lv |-> l, ok |-> o]
RECURSIVE Grow(_, _)
Grow(l, i) == IF Len(l) > i THEN l ELSE Grow(Append(l, Vacant), i)
InsertAt(s, b, i) ==
    LET l == Grow(s.lv, i)  m == l[i + 1] IN
    CASE m.k = "vacant" -> St([l EXCEPT ![i + 1] = Single(b)], s.ok)
      [] m.k = "single" -> St([l EXCEPT ![i + 1] = Begin(m.a, b)], s.ok /\ (m.a # None /\ b # None => m.a[2] = b[1]))
      [] OTHER -> St(l, FALSE)
TakenAt(s, i) == LET m == s.lv[i + 1] IN IF m.k = "merging" THEN Joined(m.a, m.b) ELSE m.a
ClearAt(s, i) == St([s.lv EXCEPT ![i + 1] = Vacant], s.ok)
RECURSIVE Roll(_, _, _, _)
Roll(s, i, n, carry) == IF i = n THEN InsertAt(s, carry, n)
                        ELSE LET t == InsertAt(s, carry, i) IN Roll(ClearAt(t, i), i + 1, n, TakenAt(t, i))
RollUp(s0, n) ==
    LET s == St(Grow(s0.lv, n), s0.ok) IN
    IF \A i \in 1 .. n : s.lv[i].k = "vacant" THEN s
    ELSE LET t == Roll(s, 0, n, None) IN
         IF IsDouble(t.lv[n + 1]) THEN InsertAt(ClearAt(t, n), TakenAt(t, n), n + 1) ELSE t
Work(m, fuel) == IF m.k # "merging" THEN m
                 ELSE IF fuel > m.left THEN Lev("merged", Joined(m.a, m.b), None, 0)
                 ELSE [m EXCEPT !.left = @ - fuel]
RECURSIVE Burn(_, _, _, _)
Burn(s, i, n, fuel) ==
    IF i = n THEN s
    ELSE LET m == Work(s.lv[i + 1], fuel)
             t == St([s.lv EXCEPT ![i + 1] = m], s.ok)
         IN Burn(IF m.k = "merged" THEN InsertAt(ClearAt(t, i), m.a, i + 1) ELSE t, i + 1, n, fuel)
ApplyFuel(s, fuel) == Burn(s, 0, Len(s.lv), fuel)
Remove(l, i) == SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))
RECURSIVE SumOf(_, _)
SumOf(l, i) == IF i = 0 THEN 0 ELSE SumOf(l, i - 1) + (CASE l[i].k = "vacant" -> 0 [] l[i].k = "single" -> 2 ^ (i - 1) [] OTHER -> 2 ^ i)
RECURSIVE Tidy1(_, _)
Tidy1(s, level) ==
    LET n == Len(s.lv) IN
    IF level >= n - 1 THEN s
    ELSE LET m == s.lv[n - 1] IN
         IF m.k = "vacant" \/ (m.k = "single" /\ m.a = None) THEN Tidy1(St(Remove(s.lv, n - 1), s.ok), level)
         ELSE IF m.k = "single" /\ SumOf(s.lv, n - 2) <= (2 ^ n) \div 8
              THEN InsertAt(St(Remove(s.lv, n - 1), s.ok), m.a, n - 2) ELSE s
Level(b) == Log2Up(Size(b))
Tidy(s) == LET n == Len(s.lv) IN
    IF n > 0 /\ s.lv[n].k = "single" THEN Tidy1(s, Level(s.lv[n].a)) ELSE s
Introduce(s, b, i) == Tidy(InsertAt(RollUp(ApplyFuel(s, 8 * 2 ^ i * Effort), i), b, i))
(* An empty batch joins the latest one if that is empty as well.                  *)
FirstUsed(s) == LET U == {i \in DOMAIN s.lv : s.lv[i].k # "vacant"} IN IF U = {} THEN 0 ELSE CHOOSE i \in U : \A j \in U : i <= j
Admit(s, b) ==
    LET p == FirstUsed(s) IN
    IF Size(b) = 0 /\ p # 0 /\ (IF p = 0 THEN FALSE ELSE s.lv[p].k = "single" /\ Size(s.lv[p].a) = 0)
    THEN LET t == InsertAt(s, b, p - 1) IN St([t.lv EXCEPT ![p] = Single(TakenAt(t, p - 1))], t.ok)
    ELSE Introduce(s, b, Level(b))
(* The provided logic asks for effort while there is anything left to merge.       *)
LenOf(m) == Size(m.a) + Size(m.b)
Wants(l) == (\E i \in DOMAIN l : IsDouble(l[i])) \/ Cardinality({i \in DOMAIN l : LenOf(l[i]) > 0}) > 1
Exerted(s0, e) == LET s == Tidy(s0) IN
    IF ~Wants(s.lv) THEN s
    ELSE IF \E i \in DOMAIN s.lv : IsDouble(s.lv[i]) THEN ApplyFuel(s, e) ELSE Introduce(s, None, Log2Up(e))

Init == lv = << >> /\ ok = TRUE /\ inserted = 0 /\ weight = 0 /\ ops = 0 /\ hist = << >>
Step(s, what) == lv' = s.lv /\ ok' = s.ok /\ ops' = ops + 1 /\ ops < MaxOps /\ hist' = Append(hist, what)
Now == St(lv, ok)
Insert == \E n \in Sizes : /\ inserted < MaxInserts
                           /\ Step(Admit(Now, <<inserted, inserted + 1, n>>), <<"insert", n>>)
                           /\ inserted' = inserted + 1 /\ weight' = weight + n + 1
Exert == \E e \in Efforts : /\ Step(Exerted(Now, e), <<"exert", e>>) /\ weight' = weight + e /\ UNCHANGED inserted
Fuel == \E f \in Fuels : /\ \E i \in DOMAIN lv : lv[i].k = "merging"
                         /\ Step(ApplyFuel(Now, f), <<"fuel", f>>) /\ UNCHANGED <<inserted, weight>>
Virtual == \E i \in Virtuals : /\ Step(Introduce(Now, None, i), <<"virtual", i>>) /\ weight' = weight + 2 ^ i /\ UNCHANGED inserted
Next == Insert \/ Exert \/ Fuel \/ Virtual
Spec == Init /\ [][Next]_vars

(* The batches a reader sees, oldest first.                                         *)
RECURSIVE Batches(_, _)
Batches(l, i) == IF i = 0 THEN << >> ELSE (IF l[i].a = None THEN << >> ELSE <<l[i].a>>) \o (IF l[i].b = None THEN << >> ELSE <<l[i].b>>) \o Batches(l, i - 1)
Seen == Batches(lv, Len(lv))
NoClash == ok
Tiled == /\ \A j \in 1 .. Len(Seen) - 1 : Seen[j][2] = Seen[j + 1][1]
         /\ IF inserted = 0 THEN Seen = << >> ELSE Seen # << >> /\ Seen[1][1] = 0 /\ Seen[Len(Seen)][2] = inserted
Few == IF Len(Seen) <= 3 THEN TRUE ELSE 2 ^ ((2 * Len(Seen) - 6) \div 3) <= weight
(* Merges are never waiting on each other.                                          *)
Apart == \A i \in 1 .. Len(lv) - 1 : ~(IsDouble(lv[i]) /\ IsDouble(lv[i + 1]))
NoneMerged == \A i \in DOMAIN lv : lv[i].k # "merged" \/ lv[i].a = None \/ TRUE
RECURSIVE Settle(_, _, _)
Settle(s, e, n) == IF n = 0 \/ ~s.ok THEN s ELSE LET t == Exerted(s, e) IN IF ~Wants(t.lv) THEN t ELSE Settle(t, e, n - 1)
Forcible == \A e \in Efforts : LET t == Settle(Now, e, 40 * (weight + 20)) IN
    t.ok /\ ~Wants(t.lv) /\ Cardinality({j \in 1 .. Len(Batches(t.lv, Len(t.lv))) : Batches(t.lv, Len(t.lv))[j][3] > 0}) <= 1
(* Printed by simulation: schedules to be replayed against the code.                *)
Emit == IF ops = MaxOps THEN PrintT("SCHED " \o ToJson(hist)) ELSE TRUE
============================================================================
