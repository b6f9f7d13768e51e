------------------------------ MODULE ChanTrace ------------------------------
(* Histories recorded from the real interpreter, checked against ChanConc: each *)
(* is accepted exactly when its calls and returns can be explained by effects    *)
(* between them. An effect is placed as late as possible, right before a return, *)
(* which loses no explanation (nothing observes an effect before a return).      *)
EXTENDS ChanConc, Json, IOUtils, Integers
H == ndJsonDeserialize(IOEnv.VERIF_TRACE)
N == Len(H)
VARIABLES h, l
vars == <<cvars, h, l>>
Ev == H[h].ev
Init == /\ h \in 1..N /\ l = 1 /\ CInit
        /\ cap = [c \in Chans |-> IF c <= Len(H[h].args.caps) THEN H[h].args.caps[c] ELSE 0]
Step == l <= Len(Ev) /\ LET e == Ev[l] IN
  \/ /\ e.k = "call" /\ CallOp(e.p, e.m.op, e.m.c, e.m.v) /\ l' = l + 1 /\ UNCHANGED h
  \/ /\ e.k = "ret" /\ pend[e.p].st = "done" /\ pend[e.p].res = e.r /\ Return(e.p) /\ l' = l + 1 /\ UNCHANGED h
  \/ /\ e.k = "ret" /\ pend[e.p].st = "called" /\ \E p \in Procs : Effect(p)
     /\ UNCHANGED <<h, l>>
Spec == Init /\ [][Step]_vars
Reached == IF l > TLCGet(h) THEN TLCSet(h, l) ELSE TRUE
Zero == \A i \in 1..N : TLCSet(i, 0)
ASSUME Zero
Report == \A i \in 1..N : PrintT(<<"REACH", i, TLCGet(i), Len(H[i].ev) + 1>>)
View == <<cap, buf, closed, pend, h, l>>
=============================================================================
