------------------------------- MODULE ScopeMC -------------------------------
(* Exhaustive: every interleaving of reads, assignments and definitions in two      *)
(* nested scopes. A read yields what some define or set! gave that name; what was    *)
(* completed before a read started is not forgotten; a name that was bound when a     *)
(* read started is never reported unbound.                                            *)
EXTENDS ScopeConc
CONSTANT OPS
VARIABLES cnt, hist, began
\* hist: the values given to a name, in order, for each scope; began[p]: how many of them had been given when p's call began
vars == <<svars, cnt, hist, began>>
Nm == "x"
Init == /\ SInit /\ val = [e \in Scopes |-> [x \in Names |-> IF e = 1 THEN 1 ELSE None]]
        /\ cnt = [p \in Procs |-> 0] /\ hist = [e \in Scopes |-> IF e = 1 THEN <<1>> ELSE <<>>] /\ began = [p \in Procs |-> [e \in Scopes |-> 0]]
Record == hist' = [e \in Scopes |-> IF val'[e][Nm] # val[e][Nm] THEN Append(hist[e], val'[e][Nm]) ELSE hist[e]]
Next == \E p \in Procs :
  \/ /\ cnt[p] < OPS /\ cnt' = [cnt EXCEPT ![p] = @ + 1]
     /\ \E op \in {"set", "def", "var", "bound", "names"}, e \in Scopes : CallOp(p, op, e, Nm, 10 * p + cnt[p])
     /\ began' = [began EXCEPT ![p] = [e \in Scopes |-> Len(hist[e])]] /\ UNCHANGED hist
  \/ Effect(p) /\ Record /\ UNCHANGED <<cnt, began>>
  \/ Return(p) /\ UNCHANGED <<cnt, hist, began>>
Spec == Init /\ [][Next]_vars
\* a read that has ended: its value was given to the name in a scope it can see, and was still there or given after the read began
ReadOK(p) == \E e \in 1..pend[p].e : \E k \in 1..Len(hist[e]) : pend[p].res = ToString(hist[e][k]) /\ k >= began[p][e]
Given == \A p \in Procs : pend[p].op = "var" /\ pend[p].st = "done" => ReadOK(p)
NeverUnbound == \A p \in Procs : pend[p].op \in {"var", "bound", "set"} /\ pend[p].st = "done" => pend[p].res \notin {"()", "#f", "!E"}
NeverStuck == \A p \in Procs : Pending(p) => ENABLED Effect(p)
=============================================================================
