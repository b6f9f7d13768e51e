------------------------------- MODULE ChanMC -------------------------------
(* Exhaustive exploration of ChanConc: every interleaving of a few processes    *)
(* doing any operations.                                                        *)
EXTENDS ChanConc
CONSTANTS CAPS, OPS
VARIABLE n          \* operations started; also the next value
vars == <<cvars, n>>
Init == CInit /\ cap \in [Chans -> CAPS] /\ n = 0
Next == \E p \in Procs :
  \/ /\ n < OPS /\ n' = n + 1
     /\ \E c \in Chans, op \in {"write", "trywrite", "read", "tryread", "close"} : CallOp(p, op, c, n + 1)
  \/ Effect(p) /\ UNCHANGED n
  \/ Return(p) /\ UNCHANGED n
Fair == \A p \in Procs : WF_vars(Effect(p) /\ UNCHANGED n) /\ WF_vars(Return(p) /\ UNCHANGED n)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fair
\* an operation that stays possible takes effect; after a close nobody waits for ever
NobodyStuck == \A p \in Procs : (pend[p].st = "called" /\ closed[pend[p].c]) ~> (pend[p].st # "called")
CloseSym == Permutations(Procs)
=============================================================================
