------------------------------- MODULE SchedMC -------------------------------
(* Exhaustive: every interleaving of schedule, abandon, reset-timeout and join  *)
(* with a clock.                                                                *)
EXTENDS SchedConc
CONSTANTS D, MAXT, OPS
VARIABLES now, left, runs, killed   \* killed: an abandon has returned while the task had not started
vars == <<svars, now, left, runs, killed>>
T == CHOOSE s \in Tasks : TRUE
Init == /\ SInit /\ now = 0 /\ left = [p \in Procs |-> OPS] /\ runs = [s \in Tasks |-> 0] /\ killed = [s \in Tasks |-> FALSE]
Next ==
  \/ \E p \in Procs, s \in Tasks :
       /\ left[p] > 0 /\ left' = [left EXCEPT ![p] = @ - 1]
       /\ \/ st[s] = "none" /\ ~(\E q \in Procs : pend[q].op = "sched" /\ pend[q].s = s) /\ CallOp(p, "sched", s, D, "args", now)
          \/ st[s] # "none" /\ \E op \in {"abandon", "reset", "join", "wake"} : CallOp(p, op, s, 0, "", now)
          \/ st[s] # "none" /\ CallOp(p, "sleep", s, 1, "", now)
       /\ UNCHANGED <<now, runs, killed>>
  \/ \E p \in Procs : Effect(p, now, now) /\ UNCHANGED <<now, left, runs, killed>>
  \/ \E p \in Procs : /\ Return(p) /\ UNCHANGED <<now, left, runs>>
                      /\ killed' = IF pend[p].op = "abandon" /\ st[pend[p].s] \notin {"running", "begun", "ended"} THEN [killed EXCEPT ![pend[p].s] = TRUE] ELSE killed
  \/ \E s \in Tasks : Fire(s, now) /\ runs' = [runs EXCEPT ![s] = @ + 1] /\ UNCHANGED <<now, left, killed>>
  \/ \E s \in Tasks : (Begin(s, now) \/ End(s, BodyValue(s))) /\ UNCHANGED <<now, left, runs, killed>>
  \/ now < MAXT /\ now' = now + 1 /\ UNCHANGED <<svars, left, runs, killed>>
Fair == /\ WF_vars(\E s \in Tasks : Fire(s, now) /\ runs' = [runs EXCEPT ![s] = @ + 1] /\ UNCHANGED <<now, left, killed>>)
        /\ WF_vars(\E s \in Tasks : (Begin(s, now) \/ End(s, BodyValue(s))) /\ UNCHANGED <<now, left, runs, killed>>)
        /\ WF_vars(\E p \in Procs : Effect(p, now, now) /\ UNCHANGED <<now, left, runs, killed>>)
        /\ WF_vars(\E p \in Procs : Return(p) /\ UNCHANGED <<now, left, runs>>
                      /\ killed' = IF pend[p].op = "abandon" /\ st[pend[p].s] \notin {"running", "begun", "ended"} THEN [killed EXCEPT ![pend[p].s] = TRUE] ELSE killed)
Spec == Init /\ [][Next]_vars /\ Fair
Once == \A s \in Tasks : runs[s] <= 1
AbandonedStays == \A s \in Tasks : killed[s] => runs[s] = 0
NotEarly == \A s \in Tasks : runs[s] > 0 => now >= D
OneJoin == \A s \in Tasks : \A p, q \in Procs : p # q /\ pend[p].op = "join" /\ pend[q].op = "join" /\ pend[p].s = s /\ pend[q].s = s =>
             ~(pend[p].st \in {"joining"} /\ pend[q].st \in {"joining"})
\* a due task runs, a joiner of an abandoned or a due task gets its answer
Runs == \A s \in Tasks : (st[s] = "pending" /\ now >= MAXT /\ dl[s] <= MAXT) ~> (st[s] # "pending" \/ dl[s] > MAXT)
JoinsEnd == \A p \in Procs : (pend[p].st = "joining" /\ st[pend[p].s] \in {"abandoned", "running"}) ~> (pend[p].st # "joining")
=============================================================================
