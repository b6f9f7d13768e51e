----------------------------- MODULE SchedTrace -----------------------------
(* Recorded histories, with the times of their events in microseconds, must be *)
(* behaviours of SchedConc.                                                     *)
EXTENDS SchedConc, Json, IOUtils
CONSTANT SLACK
H == ndJsonDeserialize(IOEnv.VERIF_TRACE)
N == Len(H)
VARIABLES h, l, made
vars == <<svars, made, h, l>>
Ev == H[h].ev
Lo == IF l = 1 THEN 0 ELSE Ev[l-1].t
Hi == Ev[l].t + 1
Init == h \in 1..N /\ l = 1 /\ SInit /\ made = [s \in Tasks |-> FALSE]
\* a task is certainly visible to calls made after the schedule that made it has returned
Obs == l <= Len(Ev) /\ NotLate(Ev[l].t, SLACK) /\ LET e == Ev[l] IN
  \/ e.k = "call" /\ CallOp(e.p, e.m.op, e.m.s, e.m.d, e.m.b, e.t) /\ l' = l + 1 /\ UNCHANGED <<h, made>>
  \/ e.k = "ret" /\ pend[e.p].st = "done" /\ pend[e.p].res = e.r /\ Return(e.p) /\ l' = l + 1 /\ UNCHANGED h
     /\ made' = IF e.r = "made" THEN [made EXCEPT ![pend[e.p].s] = TRUE] ELSE made
  \/ e.k = "in" /\ e.m = "begin" /\ Begin(e.p, e.t) /\ l' = l + 1 /\ UNCHANGED <<h, made>>
  \/ e.k = "in" /\ e.m = "end" /\ End(e.p, e.r) /\ l' = l + 1 /\ UNCHANGED <<h, made>>
Hidden == l <= Len(Ev) /\ UNCHANGED <<h, l, made>> /\
  \/ \E p \in Actors : pend[p].st \in {"called", "joining"} /\ Effect(p, Lo, Hi)
  \/ \E p \in Procs : pend[p].s \in Tasks /\ NotSeen(p, made[pend[p].s])
  \/ \E s \in Tasks : Fire(s, Hi)
Spec == Init /\ [][Obs \/ Hidden]_vars
Reached == IF l > TLCGet(h) THEN TLCSet(h, l) ELSE TRUE
ASSUME \A i \in 1..N : TLCSet(i, 0)
Report == \A i \in 1..N : PrintT(<<"REACH", i, TLCGet(i), Len(H[i].ev) + 1>>)
View == vars
=============================================================================
