------------------------------ MODULE SchedImpl ------------------------------
(* How a scheduled task is put together: a timer, and either (LOOP) a process   *)
(* that selects among abort, restart and timer signals in no order, or (~LOOP)  *)
(* a lock around the pending flag, the deadline and the timer. The first lets   *)
(* an abandoned task run, the second does not.                                   *)
EXTENDS Naturals
CONSTANTS LOOP, D, MAXT, RESETS
NOT == 1000
VARIABLES now, when, fired, abort, restart, pc, pending, deadline, runs, dead, resets, early
vars == <<now, when, fired, abort, restart, pc, pending, deadline, runs, dead, resets, early>>
Init == /\ now = 0 /\ when = D /\ fired = 0 /\ abort = FALSE /\ restart = FALSE /\ pc = "loop" /\ pending = TRUE
        /\ deadline = D /\ runs = 0 /\ dead = FALSE /\ resets = RESETS /\ early = FALSE
Tick == now < MAXT /\ now' = now + 1 /\ UNCHANGED <<when, fired, abort, restart, pc, pending, deadline, runs, dead, resets, early>>
\* the timer goes off: a signal in its channel, or a call of the handler on its way
Ring == now >= when /\ when' = NOT /\ fired' = (IF LOOP THEN 1 ELSE fired + 1)
        /\ UNCHANGED <<now, abort, restart, pc, pending, deadline, runs, dead, resets, early>>
Run == runs' = runs + 1 /\ early' = (early \/ now < deadline)
Abandon == /\ ~dead /\ dead' = (runs = 0)
           /\ IF LOOP THEN abort' = TRUE /\ UNCHANGED <<when, pending>>
              ELSE (IF pending THEN pending' = FALSE /\ when' = NOT ELSE UNCHANGED <<pending, when>>) /\ UNCHANGED abort
           /\ UNCHANGED <<now, fired, restart, pc, deadline, runs, resets, early>>
\* deadline: what the user is promised; a reset that is answered OK moves it
Reset == /\ resets > 0 /\ resets' = resets - 1
         /\ IF LOOP THEN IF restart THEN UNCHANGED <<restart, deadline, when>>
                         ELSE restart' = TRUE /\ deadline' = (IF runs = 0 THEN now + D ELSE deadline) /\ UNCHANGED when
            ELSE IF pending THEN deadline' = now + D /\ when' = now + D /\ UNCHANGED restart ELSE UNCHANGED <<deadline, when, restart>>
         /\ UNCHANGED <<now, fired, abort, pc, pending, runs, dead, early>>
Loop == /\ LOOP /\ pc = "loop"
        /\ \/ abort /\ abort' = FALSE /\ pc' = "end" /\ UNCHANGED <<restart, when, fired, runs, early>>
           \/ restart /\ restart' = FALSE /\ when' = now + D /\ UNCHANGED <<abort, pc, fired, runs, early>>
           \/ fired > 0 /\ fired' = 0 /\ pc' = "end" /\ Run /\ UNCHANGED <<abort, restart, when>>
        /\ UNCHANGED <<now, pending, deadline, dead, resets>>
Handler == /\ ~LOOP /\ fired > 0 /\ fired' = fired - 1
           /\ IF pending /\ now >= deadline THEN pending' = FALSE /\ Run ELSE UNCHANGED <<pending, runs, early>>
           /\ UNCHANGED <<now, when, abort, restart, pc, deadline, dead, resets>>
Next == Tick \/ Ring \/ Abandon \/ Reset \/ Loop \/ Handler
Spec == Init /\ [][Next]_vars /\ WF_vars(Ring) /\ WF_vars(Handler) /\ WF_vars(Tick)
Once == runs <= 1
AbandonedStays == dead => runs = 0
NotEarly == ~early
RunsInTheEnd == (now = MAXT /\ deadline <= MAXT) ~> (runs = 1 \/ dead \/ deadline > MAXT)
=============================================================================
