------------------------------ MODULE DDInput ------------------------------
(* Input sessions: each worker supplies updates at its session's time or      *)
(* later, moves the time forward, flushes, and closes.  A collection fed by   *)
(* sessions holds exactly the supplied updates; its frontier follows the      *)
(* flushed times of its sessions and never passes their times.                *)
EXTENDS DDBag

VARIABLES time,     \* time of each session
          told,     \* times flushed at, by session and collection (0: the session itself)
          open,     \* whether each session is open
          loose,    \* whether a session has supplied updates since its last flush
          fed,      \* collections (a set of their names) each session feeds
          given,    \* supplied updates, by collection: <<row, time>> to weight
          seen,     \* updates that appeared, by collection
          front     \* frontier by collection and worker
inVars == <<time, told, open, loose, fed, given, seen, front>>

InInit(nsess, ncol, nwork, zero) ==
    /\ time = [s \in 1 .. nsess |-> zero] /\ told = [s \in 1 .. nsess |-> [c \in 0 .. ncol |-> zero]]
    /\ open = [s \in 1 .. nsess |-> TRUE] /\ loose = [s \in 1 .. nsess |-> FALSE]
    /\ fed = [s \in 1 .. nsess |-> {}]
    /\ given = [c \in 1 .. ncol |-> NoRows] /\ seen = given
    /\ front = [c \in 1 .. ncol |-> [w \in 1 .. nwork |-> {zero}]]

(* A session starts to feed a collection; what it supplied and flushed before  *)
(* is not part of it.  The collection learns of the time once it moves.        *)
Attach(s, c) ==
    /\ open[s] /\ ~loose[s]
    /\ fed' = [fed EXCEPT ![s] = @ \cup {c}]
    /\ told' = [told EXCEPT ![s][c] = [j \in DOMAIN time[s] |-> 0]]
    /\ UNCHANGED <<time, open, loose, given, seen, front>>
(* Data a collection starts with.                                              *)
Initial(c, ups) ==
    /\ given' = [given EXCEPT ![c] = BPlus(@, UpdBag(ups))]
    /\ UNCHANGED <<time, told, open, loose, fed, seen, front>>
Supply(s, row, t, d) ==
    /\ open[s] /\ Leq(time[s], t)
    /\ given' = [c \in DOMAIN given |-> IF c \in fed[s] THEN BPlus(given[c], Norm([x \in {<<row, t>>} |-> d])) ELSE given[c]]
    /\ loose' = [loose EXCEPT ![s] = TRUE]
    /\ UNCHANGED <<time, told, open, fed, seen, front>>
Advance(s, t) ==
    /\ open[s] /\ Leq(time[s], t)
    /\ time' = [time EXCEPT ![s] = t]
    /\ UNCHANGED <<told, open, loose, fed, given, seen, front>>
(* Requests to go back are refused and change nothing.                         *)
Refused(s, t) == open[s] /\ ~Leq(time[s], t) /\ UNCHANGED inVars
TimeIs(s, t) == open[s] /\ t = time[s] /\ UNCHANGED inVars
Tell(s) == IF told[s][0] = time[s] THEN told ELSE [told EXCEPT ![s] = [c \in DOMAIN @ |-> time[s]]]
Flush(s) ==
    /\ open[s] /\ told' = Tell(s) /\ loose' = [loose EXCEPT ![s] = FALSE]
    /\ UNCHANGED <<time, open, fed, given, seen, front>>
(* Closing or dropping a session flushes it.                                   *)
Close(s) ==
    /\ open[s] /\ open' = [open EXCEPT ![s] = FALSE] /\ loose' = [loose EXCEPT ![s] = FALSE]
    /\ UNCHANGED <<time, told, fed, given, seen, front>>

(* Could a session still feed the collection?                                  *)
Limit(c, by) == MinElems({by[s] : s \in {x \in DOMAIN open : open[x] /\ c \in fed[x]}})
Before(b, f) == BFilter(LAMBDA x : ~Beyond(f, x[2]), b)
Appear(c, ups) ==
    /\ \A j \in DOMAIN ups : \A w \in DOMAIN front[c] : Beyond(front[c][w], ups[j][2])
    /\ seen' = [seen EXCEPT ![c] = BPlus(@, UpdBag(ups))]
    /\ UNCHANGED <<time, told, open, loose, fed, given, front>>
Passed(c, w, f) ==
    /\ FLeq(front[c][w], f)
    /\ FLeq(f, Limit(c, time))
    /\ Before(seen[c], f) = Before(given[c], f)
    /\ front' = [front EXCEPT ![c][w] = f]
    /\ UNCHANGED <<time, told, open, loose, fed, given, seen>>
(* Once there is nothing left to do.                                           *)
Quiet(C) ==
    /\ \A c \in C :
         /\ \A w \in DOMAIN front[c] : FLeq(Limit(c, [s \in DOMAIN told |-> told[s][c]]), front[c][w])
         /\ (\A s \in DOMAIN open : c \in fed[s] => ~loose[s]) => seen[c] = given[c]
    /\ UNCHANGED inVars
============================================================================
