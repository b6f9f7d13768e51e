------------------------------ MODULE FrameLock ------------------------------
(* The locking of frame lookups as an algorithm: writer-preferring read/write     *)
(* locks, lookups along a cyclic parent graph, writers of slots.                   *)
(*   ALGO = "nested": a lookup keeps the read lock of each frame on its way         *)
(*                     (the code as found: deadlocks, TLC shows the schedule)        *)
(*   ALGO = "single": lookups share one lock for all frames (the code as repaired)  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Readers, Writers, ALGO
Frames == {1, 2}
Locks == {0, 1, 2}            \* 0: the lock for all frames
VARIABLES rd, wr, want, pc, todo, held
vars == <<rd, wr, want, pc, todo, held>>
P == Readers \cup Writers
\* the locks a process takes, in order
Plan(p, f) == IF p \in Readers THEN (IF ALGO = "nested" THEN <<f, 3 - f, f>> ELSE <<0>>)
              ELSE (IF ALGO = "nested" THEN <<f>> ELSE <<0, f>>)
Init == /\ rd = [k \in Locks |-> 0] /\ wr = [k \in Locks |-> FALSE] /\ want = [k \in Locks |-> {}]
        /\ pc = [p \in P |-> "idle"] /\ todo = [p \in P |-> <<>>] /\ held = [p \in P |-> <<>>]
Start(p) == /\ pc[p] = "idle" /\ pc' = [pc EXCEPT ![p] = "acq"] /\ \E f \in Frames : todo' = [todo EXCEPT ![p] = Plan(p, f)]
            /\ UNCHANGED <<rd, wr, want, held>>
RLock(p) == /\ p \in Readers /\ pc[p] = "acq" /\ todo[p] # <<>>
            /\ LET k == Head(todo[p]) IN ~wr[k] /\ want[k] = {} /\ rd' = [rd EXCEPT ![k] = @ + 1]
                  /\ held' = [held EXCEPT ![p] = Append(@, k)] /\ todo' = [todo EXCEPT ![p] = Tail(@)]
            /\ UNCHANGED <<wr, want, pc>>
Announce(p) == /\ p \in Writers /\ pc[p] = "acq" /\ todo[p] # <<>> /\ LET k == Head(todo[p]) IN p \notin want[k] /\ want[k] = {} /\ ~wr[k] /\ want' = [want EXCEPT ![k] = {p}]
               /\ UNCHANGED <<rd, wr, pc, todo, held>>
Lock(p) == /\ p \in Writers /\ pc[p] = "acq" /\ todo[p] # <<>>
           /\ LET k == Head(todo[p]) IN p \in want[k] /\ rd[k] = 0 /\ ~wr[k] /\ wr' = [wr EXCEPT ![k] = TRUE] /\ want' = [want EXCEPT ![k] = {}]
                 /\ held' = [held EXCEPT ![p] = Append(@, k)] /\ todo' = [todo EXCEPT ![p] = Tail(@)]
           /\ UNCHANGED <<rd, pc>>
Release(p) == /\ pc[p] = "acq" /\ todo[p] = <<>> /\ held[p] # <<>>
              /\ LET k == held[p][Len(held[p])] IN
                   /\ held' = [held EXCEPT ![p] = SubSeq(@, 1, Len(@) - 1)]
                   /\ IF p \in Readers THEN rd' = [rd EXCEPT ![k] = @ - 1] /\ UNCHANGED wr ELSE wr' = [wr EXCEPT ![k] = FALSE] /\ UNCHANGED rd
              /\ UNCHANGED <<want, pc, todo>>
End(p) == /\ pc[p] = "acq" /\ todo[p] = <<>> /\ held[p] = <<>> /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<rd, wr, want, todo, held>>
Next == \E p \in P : Start(p) \/ RLock(p) \/ Announce(p) \/ Lock(p) \/ Release(p) \/ End(p)
Spec == Init /\ [][Next]_vars
Exclusive == \A k \in Locks : wr[k] => rd[k] = 0
\* somebody that has begun can always go on
NoDeadlock == (\E p \in P : pc[p] = "acq") => \E p \in P : pc[p] = "acq" /\ (ENABLED RLock(p) \/ ENABLED Announce(p) \/ ENABLED Lock(p) \/ ENABLED Release(p) \/ ENABLED End(p))
=============================================================================
