--------------------------- MODULE DDLatticeTrace --------------------------
(* Checks recorded answers of real timestamp types against DDLattice.        *)
EXTENDS DDLattice, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
vars == <<tid, i>>
Tr == Traces[tid]
Ev == Tr.ev[i]
T == Tr.type
Set(s) == {s[j] : j \in DOMAIN s}
(* A frontier has no repeated or redundant elements.                          *)
IsF(s, F) == Set(s) = F /\ Len(s) = Cardinality(F)
Sign(e) ==
    /\ e[4] = -e[5]
    /\ (e[4] = 0) = (e[2] = e[3])
    /\ TLt(T, e[2], e[3]) => e[4] = -1
    /\ TLt(T, e[3], e[2]) => e[4] = 1
    \* and no cycles with the comparisons already seen
    /\ \A j \in 1 .. i - 1 : LET d == Tr.ev[j] IN d[1] = "cmp" /\ d[3] = e[2] /\ d[4] = e[4] /\ e[4] # 0 =>
          \A k \in 1 .. i - 1 : LET c == Tr.ev[k] IN c[1] = "cmp" /\ c[2] = d[2] /\ c[3] = e[3] => c[4] = e[4]
Ok(e) ==
    CASE e[1] = "min" -> e[2] = TMin(T)
      [] e[1] = "max" -> e[2] = TMax(T)
      [] e[1] = "le" -> e[4] = TLeq(T, e[2], e[3]) /\ e[5] = TLt(T, e[2], e[3]) /\ e[6] = (e[2] = e[3])
      [] e[1] = "join" -> e[4] = TJoin(T, e[2], e[3]) /\ e[5] = e[4]
      [] e[1] = "meet" -> e[4] = TMeet(T, e[2], e[3]) /\ e[5] = e[4]
      [] e[1] = "cmp" -> Sign(e)
      [] e[1] = "adv" -> e[4] = TRep(T, e[2], Set(e[3]))
      [] e[1] = "res" -> e[4] = TRes(T, e[2], e[3])
      [] e[1] = "fol" -> e[4] = TFol(T, e[2], e[3])
      [] e[1] = "sle" -> e[4] = SLeq(T, e[2], e[3])
      [] e[1] = "fjoin" -> \A j \in DOMAIN e[4] : IsF(e[4][j], TFJoin(T, Set(e[2]), Set(e[3])))
      [] e[1] = "fmeet" -> \A j \in DOMAIN e[4] : IsF(e[4][j], TFMeet(T, Set(e[2]), Set(e[3])))
      [] e[1] = "fle" -> /\ e[5] = TFLeq(T, Set(e[2]), Set(e[3]))
                         /\ e[6] = TBeyond(T, Set(e[2]), e[4])
                         /\ e[7] = (\E f \in Set(e[2]) : TLt(T, f, e[4]))
      [] e[1] = "slice" -> LET p == e[2] q == e[3] IN
                           /\ e[4] = (p = Trim(T, q)) /\ e[5] = e[4]
                           /\ e[6] = TLeq(T, p, q) /\ e[7] = TLeq(T, q, p)
      [] e[1] = "stamp" -> e[3] = Trim(T, e[2]) /\ e[4] = e[3]
Init == tid \in DOMAIN Traces /\ i = 1
Next == \/ i <= Len(Tr.ev) /\ Ok(Ev) /\ i' = i + 1 /\ tid' = tid
        \/ i > Len(Tr.ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
============================================================================
