------------------------------- MODULE SymMC -------------------------------
(* The symbol table as an algorithm: look under a read lock, and if the name is  *)
(* not there, insert under the write lock - after looking again (RECHECK) or not; *)
(* and the counters of generated symbols, with the lock held over the increment  *)
(* (LOCKED) or not.                                                               *)
EXTENDS Naturals, FiniteSets
CONSTANTS Procs, Names, ROUNDS, RECHECK, LOCKED
VARIABLES tab, rd, wr, pc, nm, got, next, left, cnt, loc, made
vars == <<tab, rd, wr, pc, nm, got, next, left, cnt, loc, made>>
Init == /\ tab = [n \in Names |-> 0] /\ rd = 0 /\ wr = FALSE /\ pc = [p \in Procs |-> "idle"] /\ nm = [p \in Procs |-> CHOOSE n \in Names : TRUE]
        /\ got = {} /\ next = 1 /\ left = [p \in Procs |-> ROUNDS] /\ cnt = 0 /\ loc = [p \in Procs |-> 0] /\ made = [p \in Procs |-> {}]
Go(p, to) == pc' = [pc EXCEPT ![p] = to]
Start(p) == /\ pc[p] = "idle" /\ left[p] > 0 /\ left' = [left EXCEPT ![p] = @ - 1]
            /\ \/ \E n \in Names : nm' = [nm EXCEPT ![p] = n] /\ Go(p, "rlock")
               \/ Go(p, "glock") /\ UNCHANGED nm
            /\ UNCHANGED <<tab, rd, wr, got, next, cnt, loc, made>>
Steps(p) ==
  \/ pc[p] = "rlock" /\ ~wr /\ rd' = rd + 1 /\ Go(p, "look") /\ UNCHANGED <<tab, wr, nm, got, next, left, cnt, loc, made>>
  \/ pc[p] = "look" /\ loc' = [loc EXCEPT ![p] = tab[nm[p]]] /\ Go(p, "runlock") /\ UNCHANGED <<tab, rd, wr, nm, got, next, left, cnt, made>>
  \/ pc[p] = "runlock" /\ rd' = rd - 1 /\ Go(p, IF loc[p] = 0 THEN "lock" ELSE "out") /\ UNCHANGED <<tab, wr, nm, got, next, left, cnt, loc, made>>
  \/ pc[p] = "lock" /\ ~wr /\ rd = 0 /\ wr' = TRUE /\ Go(p, "insert") /\ UNCHANGED <<tab, rd, nm, got, next, left, cnt, loc, made>>
  \/ pc[p] = "insert" /\ (IF RECHECK /\ tab[nm[p]] # 0 THEN loc' = [loc EXCEPT ![p] = tab[nm[p]]] /\ UNCHANGED <<tab, next>>
                          ELSE tab' = [tab EXCEPT ![nm[p]] = next] /\ next' = next + 1 /\ loc' = [loc EXCEPT ![p] = next])
     /\ Go(p, "unlock") /\ UNCHANGED <<rd, wr, nm, got, left, cnt, made>>
  \/ pc[p] = "unlock" /\ wr' = FALSE /\ Go(p, "out") /\ UNCHANGED <<tab, rd, nm, got, next, left, cnt, loc, made>>
  \/ pc[p] = "out" /\ got' = got \cup {<<nm[p], loc[p]>>} /\ Go(p, "idle") /\ UNCHANGED <<tab, rd, wr, nm, next, left, cnt, loc, made>>
  \/ pc[p] = "glock" /\ (LOCKED => ~wr /\ rd = 0) /\ wr' = (IF LOCKED THEN TRUE ELSE wr) /\ Go(p, "gread") /\ UNCHANGED <<tab, rd, nm, got, next, left, cnt, loc, made>>
  \/ pc[p] = "gread" /\ loc' = [loc EXCEPT ![p] = cnt] /\ Go(p, "gwrite") /\ UNCHANGED <<tab, rd, wr, nm, got, next, left, cnt, made>>
  \/ pc[p] = "gwrite" /\ cnt' = loc[p] + 1 /\ wr' = (IF LOCKED THEN FALSE ELSE wr) /\ made' = [made EXCEPT ![p] = @ \cup {loc[p]}] /\ Go(p, "idle") /\ UNCHANGED <<tab, rd, nm, got, next, left, loc>>
Next == \E p \in Procs : Start(p) \/ Steps(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OneSymbol == \A a, b \in got : (a[1] = b[1]) <=> (a[2] = b[2])
AllNew == (\A p, q \in Procs : p # q => made[p] \cap made[q] = {}) /\ ((\A p \in Procs : pc[p] = "idle") => cnt = Cardinality(UNION {made[p] : p \in Procs}))
Ends == <>(\A p \in Procs : pc[p] = "idle" /\ left[p] = 0)
=============================================================================
