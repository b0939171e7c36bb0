---------------------------- MODULE DDDiffTrace ----------------------------
(* Checks recorded answers of real difference types and consolidations        *)
(* against DDDiff.                                                             *)
EXTENDS DDDiff, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
vars == <<tid, i>>
Tr == Traces[tid]
Ev == Tr.ev[i]
T == Tr.type
(* A builder's containers: canonical, and accounting for exactly what was put   *)
(* in each time it is finished.                                                *)
Builder(ins, outs, fin) ==
    /\ \A j \in DOMAIN outs : Canonical(T, outs[j]) /\ outs[j] # << >>
    /\ \A j \in DOMAIN fin : Sums(T, SubSeq(ins, 1, fin[j][1])) = Sums(T, FlattenSeq(SubSeq(outs, 1, fin[j][2])))
Ok(e) ==
    CASE e[1] = "plus" -> e[4] = DPlus(T, e[2], e[3]) /\ e[5] = e[4]
      [] e[1] = "iszero" -> e[3] = DIsZero(T, e[2])
      [] e[1] = "zero" -> e[2] = DZero(T) /\ e[3]
      [] e[1] = "neg" -> e[3] = DNeg(T, e[2])
      [] e[1] = "mul" -> e[6] = DMul(T, e[2], e[3], e[4]) /\ e[5] = DMulTy(T, e[3])
      [] e[1] = "cons" -> /\ SubSeq(e[4], 1, e[2]) = SubSeq(e[3], 1, e[2])
                          /\ Consolidated(T, SubSeq(e[3], e[2] + 1, Len(e[3])), SubSeq(e[4], e[2] + 1, Len(e[4])))
      [] e[1] = "builder" -> Builder(e[2], e[3], e[4])
      [] e[1] = "same" -> e[2] = e[3]
Init == tid \in DOMAIN Traces /\ i = 1
Next == \/ i <= Len(Tr.ev) /\ Ok(Ev) /\ i' = i + 1 /\ tid' = tid
        \/ i > Len(Tr.ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
============================================================================
