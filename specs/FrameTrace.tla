----------------------------- MODULE FrameTrace -----------------------------
EXTENDS FrameConc, Json, IOUtils
H == ndJsonDeserialize(IOEnv.VERIF_TRACE)
N == Len(H)
VARIABLES h, l
vars == <<fvars, h, l>>
Ev == H[h].ev
Init == /\ h \in 1..N /\ l = 1 /\ FInit
        /\ own = [f \in Frames |-> [s \in SlotNames |-> IF f <= Len(H[h].args.own) THEN H[h].args.own[f][s] ELSE None]]
        /\ par = [f \in Frames |-> IF f <= Len(H[h].args.par) THEN {H[h].args.par[f][i] : i \in 1..Len(H[h].args.par[f])} ELSE {}]
Step == l <= Len(Ev) /\ LET e == Ev[l] IN
  \/ e.k = "call" /\ CallOp(e.p, e.m.op, e.m.f, e.m.s, e.m.v) /\ l' = l + 1 /\ UNCHANGED h
  \/ e.k = "ret" /\ pend[e.p].st = "done" /\ pend[e.p].res = e.r /\ Return(e.p) /\ l' = l + 1 /\ UNCHANGED h
  \/ e.k = "ret" /\ pend[e.p].st = "called" /\ (\E p \in Procs : Effect(p)) /\ UNCHANGED <<h, l>>
Spec == Init /\ [][Step]_vars
Reached == IF l > TLCGet(h) THEN TLCSet(h, l) ELSE TRUE
ASSUME \A i \in 1..N : TLCSet(i, 0)
Report == \A i \in 1..N : PrintT(<<"REACH", i, TLCGet(i), Len(H[i].ev) + 1>>)
View == <<fvars, h, l>>
=============================================================================
