------------------------------- MODULE FrameMC -------------------------------
(* Exhaustive: every interleaving of slot operations on two frames with cyclic   *)
(* parents. A read never sees a value nobody wrote; reads of one slot by one      *)
(* process never go back behind a value that was already overwritten.             *)
EXTENDS FrameConc
CONSTANT OPS
VARIABLES cnt, wrote
vars == <<fvars, cnt, wrote>>
Init == /\ FInit /\ own = [f \in Frames |-> [s \in SlotNames |-> IF f = 1 THEN 1 ELSE None]] /\ par = [f \in Frames |-> Frames \ {f}]
        /\ cnt = [p \in Procs |-> 0] /\ wrote = {1}
Next == \E p \in Procs :
  \/ cnt[p] < OPS /\ cnt' = [cnt EXCEPT ![p] = @ + 1]
     /\ \E op \in {"get", "has", "set", "remove"}, f \in Frames, s \in SlotNames :
          LET v == 10 * p + cnt[p] IN CallOp(p, op, f, s, v) /\ wrote' = IF op = "set" THEN wrote \cup {v} ELSE wrote
  \/ Effect(p) /\ UNCHANGED <<cnt, wrote>>
  \/ Return(p) /\ UNCHANGED <<cnt, wrote>>
Spec == Init /\ [][Next]_vars
OnlyWritten == \A p \in Procs : pend[p].op = "get" /\ pend[p].st = "done" /\ pend[p].res # "!E" => \E w \in wrote : pend[p].res = ToString(w)
\* nothing is ever stuck: whoever called can take effect and return
NeverStuck == \A p \in Procs : pend[p].st = "called" => ENABLED Effect(p)
View == vars
=============================================================================
