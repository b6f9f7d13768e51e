----------------------------- MODULE SchedConc -----------------------------
(* Scheduled tasks (schedule, abandon, reset-timeout, join) and sleeping       *)
(* processes (wake, proc-sleep), used by several processes at once. Every       *)
(* operation has one effect between its call and its return. Times are in       *)
(* whatever unit the user of this module counts; an effect is known to happen   *)
(* at some time between lo and hi.                                              *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Procs, Tasks
VARIABLES st,      \* task: "none", "pending", "running", "begun", "ended", "abandoned"
          info,    \* task: kind ("fork" or a scheduled one), body, delay
          dl,      \* task: it does not start before this time
          joined, token, got, pend
svars == <<st, info, dl, joined, token, got, pend>>
Body(s) == 100 + s
Actors == Procs \cup {Body(s) : s \in Tasks}
Idle == [op |-> "none", s |-> 0, d |-> 0, st |-> "idle", res |-> "", at |-> 0]
SInit == /\ st = [s \in Tasks |-> "none"] /\ info = [s \in Tasks |-> [fork |-> FALSE, body |-> "", d |-> 0]]
         /\ dl = [s \in Tasks |-> 0] /\ joined = [s \in Tasks |-> FALSE] /\ token = [s \in Tasks |-> FALSE]
         /\ got = [s \in Tasks |-> "()"] /\ pend = [a \in Actors |-> Idle]
OK == "\"OK\""
TooLate == "\"task was already completed or abandoned\""
Finished(s) == st[s] \in {"ended", "abandoned"} \/ (st[s] = "begun" /\ info[s].body \in {"err", "panic"})

CallOp(p, op, s, d, body, now) ==
  /\ pend[p].st = "idle"
  /\ pend' = [pend EXCEPT ![p] = [op |-> op, s |-> s, d |-> d, st |-> "called", res |-> "", at |-> now]]
  /\ info' = IF op \in {"sched", "fork"} THEN [info EXCEPT ![s] = [fork |-> op = "fork", body |-> body, d |-> d]] ELSE info
  /\ UNCHANGED <<st, dl, joined, token, got>>
Done(p, r) == pend' = [pend EXCEPT ![p].st = "done", ![p].res = r]

Effect(p, lo, hi) ==
  LET o == pend[p]  s == o.s IN
  /\ UNCHANGED info
  /\ CASE o.st = "called" /\ o.op \in {"sched", "fork"} ->
             /\ st[s] = "none" /\ st' = [st EXCEPT ![s] = "pending"] /\ dl' = [dl EXCEPT ![s] = lo + (IF o.op = "fork" THEN 0 ELSE o.d)]
             /\ Done(p, "made") /\ UNCHANGED <<joined, token, got>>
       [] o.st = "called" /\ o.op = "abandon" ->
             /\ IF st[s] = "none" THEN Done(p, "none") /\ UNCHANGED st
                ELSE IF info[s].fork THEN Done(p, "!E") /\ UNCHANGED st
                ELSE Done(p, OK) /\ st' = IF st[s] = "pending" THEN [st EXCEPT ![s] = "abandoned"] ELSE st
             /\ UNCHANGED <<dl, joined, token, got>>
       [] o.st = "called" /\ o.op = "reset" ->
             /\ IF st[s] = "none" THEN Done(p, "none") /\ UNCHANGED dl
                ELSE IF info[s].fork THEN Done(p, "!E") /\ UNCHANGED dl
                ELSE IF st[s] = "pending" THEN Done(p, OK) /\ dl' = [dl EXCEPT ![s] = lo + info[s].d]
                ELSE Done(p, TooLate) /\ UNCHANGED dl
             /\ UNCHANGED <<st, joined, token, got>>
       [] o.st = "called" /\ o.op = "join" ->
             /\ IF st[s] = "none" THEN Done(p, "none") /\ UNCHANGED joined
                ELSE IF joined[s] THEN Done(p, "!E") /\ UNCHANGED joined
                ELSE pend' = [pend EXCEPT ![p].st = "joining"] /\ joined' = [joined EXCEPT ![s] = TRUE]
             /\ UNCHANGED <<st, dl, token, got>>
       [] o.st = "joining" -> Finished(s) /\ Done(p, got[s]) /\ UNCHANGED <<st, dl, joined, token, got>>
       [] o.st = "called" /\ o.op = "wake" ->
             /\ IF st[s] = "none" THEN Done(p, "none") /\ UNCHANGED token
                ELSE Done(p, OK) /\ token' = [token EXCEPT ![s] = TRUE]
             /\ UNCHANGED <<st, dl, joined, got>>
       [] o.st = "called" /\ o.op = "sleep" ->
             /\ IF st[s] = "none" THEN Done(p, "none") /\ UNCHANGED token
                ELSE IF token[s] THEN Done(p, "#t") /\ token' = [token EXCEPT ![s] = FALSE]
                ELSE hi >= o.at + o.d /\ Done(p, "#f") /\ UNCHANGED token
             /\ UNCHANGED <<st, dl, joined, got>>
       [] o.st = "called" /\ o.op = "nop" -> Done(p, "()") /\ UNCHANGED <<st, dl, joined, token, got>>
       [] OTHER -> FALSE
\* a process that was shown no task yet does nothing, whatever has been scheduled meanwhile
NotSeen(p, made) ==
  /\ pend[p].st = "called" /\ pend[p].op \in {"abandon", "reset", "join", "wake", "sleep"} /\ ~made
  /\ Done(p, "none") /\ UNCHANGED <<st, info, dl, joined, token, got>>
Return(p) == pend[p].st = "done" /\ pend' = [pend EXCEPT ![p] = Idle] /\ UNCHANGED <<st, info, dl, joined, token, got>>

Fire(s, hi) == /\ st[s] = "pending" /\ hi >= dl[s]
               /\ st' = [st EXCEPT ![s] = "running"] /\ UNCHANGED <<info, dl, joined, token, got, pend>>
Begin(s, now) == /\ st[s] = "running" /\ st' = [st EXCEPT ![s] = "begun"]
                 /\ pend' = IF info[s].body = "sleep"
                            THEN [pend EXCEPT ![Body(s)] = [op |-> "sleep", s |-> s, d |-> info[s].d, st |-> "called", res |-> "", at |-> now]] ELSE pend
                 /\ UNCHANGED <<info, dl, joined, token, got>>
\* what a body does and yields: its arguments; its own abandon, reset-timeout and join, which change nothing; its sleep
BodyValue(s) == CASE info[s].body = "args" -> "(" \o ToString(s) \o " (a b))"
                  [] info[s].body = "nil" -> "()"
                  [] info[s].body = "self" -> IF info[s].fork THEN "(!E !E ())" ELSE "(" \o OK \o " " \o TooLate \o " ())"
                  [] info[s].body = "sleep" -> IF pend[Body(s)].st = "done" THEN pend[Body(s)].res ELSE "?"
                  [] OTHER -> "?"
End(s, v) == /\ st[s] = "begun" /\ v = BodyValue(s) /\ st' = [st EXCEPT ![s] = "ended"] /\ got' = [got EXCEPT ![s] = v]
             /\ pend' = [pend EXCEPT ![Body(s)] = Idle] /\ UNCHANGED <<info, dl, joined, token>>
\* nothing that is due may be put off for ever
NotLate(now, slack) == /\ \A s \in Tasks : st[s] = "pending" => now <= dl[s] + slack
                       /\ \A a \in Actors : pend[a].st = "called" /\ pend[a].op = "sleep" => now <= pend[a].at + pend[a].d + slack
=============================================================================
