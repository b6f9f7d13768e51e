------------------------------ MODULE SymBulk ------------------------------
(* What several processes got when they looked up the same names, or generated   *)
(* symbols, at the same time.                                                     *)
(* intern: res[p][i] is (a number for) the object process p got for name ord[p][i]. *)
(* gen: res[p] is the list of the names of the symbols process p generated.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Rows == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Pairs(r) == UNION {{<<r.ord[p][k], r.res[p][k]>> : k \in 1..Len(r.ord[p])} : p \in 1..Len(r.res)}
OneEach(r) == LET ps == Pairs(r) IN Cardinality(ps) = Cardinality({x[1] : x \in ps}) /\ Cardinality(ps) = Cardinality({x[2] : x \in ps})
AllNew(r) == LET names == UNION {{r.res[p][k] : k \in 1..Len(r.res[p])} : p \in 1..Len(r.res)}
                 RECURSIVE Sum(_) Sum(p) == IF p = 0 THEN 0 ELSE Len(r.res[p]) + Sum(p - 1) IN
             Cardinality(names) = Sum(Len(r.res))
Ok(r) == /\ \A p \in 1..Len(r.res) : Len(r.res[p]) = r.n
         /\ IF r.op = "intern" THEN OneEach(r) ELSE AllNew(r)
Init == i = 0
Next == i < Len(Rows) /\ Ok(Rows[i + 1]) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Report == PrintT(<<"BULK", TLCGet("stats").diameter - 1, Len(Rows)>>)
=============================================================================
