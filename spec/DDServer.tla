------------------------------ MODULE DDServer -----------------------------
(* A server of interpreted programs.  Programs are installed and dropped      *)
(* under names while it runs; each publishes collections under names of their *)
(* own, reads those that others publish, and has inputs to feed.  Time passes *)
(* in epochs.  At every time a published collection is what its program means *)
(* at that time, of its inputs and the collections it imports, whenever and   *)
(* wherever it was installed.  Commands that are refused change nothing.      *)
EXTENDS DDInterp

VARIABLES epoch,   \* the open epoch
          progs    \* by name: what is installed
srvVars == <<epoch, progs>>

(* Sources that are installed when something first imports them.              *)
IotaSize == ("iota:0" :> 0) @@ ("iota:1" :> 1) @@ ("iota:3" :> 3) @@ ("iota:5" :> 5)
Sources == {"clock"} \cup DOMAIN IotaSize
Source(n, at) == [kind |-> IF n = "clock" THEN "clock" ELSE "generated", body |-> << >>, feeds |-> [j \in {} |-> << >>], since |-> at]
Program(body) == [kind |-> "program", body |-> body, feeds |-> [j \in IMentions("input", body) |-> << >>], since |-> epoch]

(* --- Who publishes what, and who reads it. ---------------------------------------------------- *)
ExportsOf(P, p) == IF P[p].kind = "program" THEN IExports(P[p].body) ELSE {p}
ImportsOf(P, p) == IF P[p].kind = "program" THEN IMentions("import", P[p].body) ELSE {}
Published(P) == UNION {ExportsOf(P, p) : p \in DOMAIN P}
Producer(P, x) == CHOOSE p \in DOMAIN P : x \in ExportsOf(P, p)
Importers(P, x) == {p \in DOMAIN P : x \in ImportsOf(P, p)}

(* --- What a published collection holds at a time. ---------------------------------------------- *)
Row1(n) == <<<<"t", IInt(n)>>, IUnit>>
RECURSIVE Content(_, _, _)
Content(P, x, t) ==
    LET p == Producer(P, x) me == P[p] IN
    CASE me.kind = "clock" -> IF t >= me.since THEN [r \in {Row1(t)} |-> 1] ELSE NoRows
      [] me.kind = "generated" -> [r \in {Row1(n) : n \in 0 .. IotaSize[p] - 1} |-> 1]
      [] me.kind = "program" ->
           IMeaning(me.body, x,
               [input |-> TLCEval([j \in {i + 1 : i \in DOMAIN me.feeds} |-> AccAt(me.feeds[j - 1], <<t>>)]),
                trace |-> TLCEval([y \in ImportsOf(P, p) |-> Content(P, y, t)])])
Shown(x) == IF epoch = 0 THEN NoRows ELSE Content(progs, x, epoch - 1)

(* --- Commands. ------------------------------------------------------------------------------------ *)
SrvInit == epoch = 0 /\ progs = [p \in {} |-> 0]
Only(d, S) == [x \in S |-> d[x]]

CanInstall(p, body) ==
    LET fresh == IMentions("import", body) \cap Sources IN
    /\ p \notin DOMAIN progs \cup Sources
    /\ IMentions("import", body) \subseteq Published(progs) \cup fresh
    /\ IExports(body) \cap (Published(progs) \cup fresh) = {}
Install(p, body) ==
    LET fresh == (IMentions("import", body) \cap Sources) \ Published(progs) IN
    /\ progs' = TLCEval((p :> Program(body)) @@ [n \in fresh |-> Source(n, epoch)] @@ progs)
    /\ UNCHANGED epoch
(* An update is supplied at the open epoch or later.                          *)
CanFeed(p, j, t) == t >= epoch /\ p \in DOMAIN progs /\ progs[p].kind = "program" /\ j \in DOMAIN progs[p].feeds
Feed(p, j, row, t, d) ==
    /\ progs' = TLCEval([progs EXCEPT ![p].feeds[j] = Append(@, <<row, <<t>>, d>>)])
    /\ UNCHANGED epoch
(* Programs that others read from stay.                                       *)
CanDrop(p) == p \in DOMAIN progs /\ \A x \in ExportsOf(progs, p) : Importers(progs, x) = {}
Drop(p) ==
    /\ progs' = TLCEval(Only(progs, DOMAIN progs \ {p}))
    /\ UNCHANGED epoch
Tick == epoch' = epoch + 1 /\ UNCHANGED progs
(* The collection as of the last closed epoch, perhaps for one key only.      *)
Peek(x, keys) == BFilter(LAMBDA r : keys = << >> \/ r[1] = keys[1], Shown(x))

(* What the server lists.                                                     *)
Listing == [epoch |-> epoch,
            traces |-> {<<x, Cardinality(Importers(progs, x))>> : x \in Published(progs)},
            programs |-> {<<p, progs[p].kind, IF progs[p].kind = "program" THEN DOMAIN progs[p].feeds ELSE {0}, ImportsOf(progs, p), ExportsOf(progs, p)>> : p \in DOMAIN progs}]

(* --- What holds of it. ------------------------------------------------------------------------------ *)
(* What a program reads is there, and one program publishes it.               *)
Provided == \A p \in DOMAIN progs : ImportsOf(progs, p) \subseteq Published(progs)
Single == \A p, q \in DOMAIN progs : p # q => ExportsOf(progs, p) \cap ExportsOf(progs, q) = {}
============================================================================
