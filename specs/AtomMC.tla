------------------------------- MODULE AtomMC -------------------------------
(* Exhaustive: a compare-and-swap loop built from the atomics is a correct      *)
(* counter and a correct lock under every interleaving.                         *)
EXTENDS AtomConc, FiniteSets
CONSTANT ROUNDS
VARIABLES pc, seen, cnt, adds
vars == <<avars, pc, seen, cnt, adds>>
Init == AInit /\ val = [a \in Ats |-> 0] /\ pc = [p \in Procs |-> "idle"] /\ seen = [p \in Procs |-> 0] /\ cnt = [p \in Procs |-> 0] /\ adds = 0
A == CHOOSE a \in Ats : TRUE
Next == \E p \in Procs :
  \/ pc[p] = "idle" /\ cnt[p] < ROUNDS /\ CallOp(p, "load", A, 0, 0) /\ pc' = [pc EXCEPT ![p] = "load"] /\ UNCHANGED <<seen, cnt, adds>>
  \/ Effect(p) /\ seen' = (IF pend[p].op = "load" THEN [seen EXCEPT ![p] = val[A]] ELSE seen)
               /\ adds' = (IF pend[p].op = "cas" /\ val[A] = pend[p].x THEN adds + 1 ELSE adds) /\ UNCHANGED <<pc, cnt>>
  \/ pc[p] = "load" /\ Return(p) /\ pc' = [pc EXCEPT ![p] = "try"] /\ UNCHANGED <<seen, cnt, adds>>
  \/ pc[p] = "try" /\ CallOp(p, "cas", A, seen[p], seen[p] + 1) /\ pc' = [pc EXCEPT ![p] = "cas"] /\ UNCHANGED <<seen, cnt, adds>>
  \/ pc[p] = "cas" /\ Return(p) /\ pc' = [pc EXCEPT ![p] = "idle"]
     /\ cnt' = (IF pend[p].res = "#t" THEN [cnt EXCEPT ![p] = @ + 1] ELSE cnt) /\ UNCHANGED <<seen, adds>>
Spec == Init /\ [][Next]_vars
CounterExact == val[A] = adds
AllDone == (\A p \in Procs : cnt[p] = ROUNDS) => val[A] = ROUNDS * Cardinality(Procs)
=============================================================================
