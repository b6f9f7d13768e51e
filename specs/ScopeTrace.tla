----------------------------- MODULE ScopeTrace -----------------------------
EXTENDS ScopeConc, Json, IOUtils
H == ndJsonDeserialize(IOEnv.VERIF_TRACE)
N == Len(H)
VARIABLES h, l
vars == <<svars, h, l>>
Ev == H[h].ev
Init == /\ h \in 1..N /\ l = 1 /\ SInit
        /\ val = [e \in Scopes |-> [x \in Names |-> H[h].args.init[e][x]]]
Step == l <= Len(Ev) /\ LET e == Ev[l] IN
  \/ e.k = "call" /\ CallOp(e.p, e.m.op, e.m.e, e.m.n, e.m.v) /\ l' = l + 1 /\ UNCHANGED h
  \/ e.k = "ret" /\ pend[e.p].st = "done" /\ pend[e.p].res \in {"*", e.r} /\ e.r # "!E!" /\ Return(e.p) /\ l' = l + 1 /\ UNCHANGED h
  \/ e.k = "ret" /\ Pending(e.p) /\ (\E p \in Procs : Effect(p)) /\ UNCHANGED <<h, l>>
Spec == Init /\ [][Step]_vars
Reached == IF l > TLCGet(h) THEN TLCSet(h, l) ELSE TRUE
ASSUME \A i \in 1..N : TLCSet(i, 0)
Report == \A i \in 1..N : PrintT(<<"REACH", i, TLCGet(i), Len(H[i].ev) + 1>>)
View == <<svars, h, l>>
=============================================================================
