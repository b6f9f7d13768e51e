------------------------------ MODULE ScopeBulk ------------------------------
(* Long runs on one shared scope. One record per run:                             *)
(*  seen:  what the readers of a variable saw whose only writer gave it 0, 1, .. n; *)
(*         they never go back                                                        *)
(*  after: pairs of what the writer had assigned before it sent its number, and what  *)
(*         the receiver then read: never less                                         *)
(*  grow:  how many names a listing showed while processes defined n names: never      *)
(*         fewer than before; at the end all are there with their values (finals)       *)
(*  own:   a counter of its own for each process, made by one shared function: it        *)
(*         counts 1, 2, .. n whatever the others do                                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
H == ndJsonDeserialize(IOEnv.VERIF_TRACE)
N == Len(H)
Mono(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
In(s, m) == \A i \in 1..Len(s) : s[i] \in 0..m
OK(h) == h.finals = h.wantfinals /\ \A k \in 1..Len(h.res) : LET s == h.res[k] IN
  CASE h.op = "seen" -> In(s, h.n) /\ Mono(s)
    [] h.op = "after" -> \A i \in 1..Len(s) : s[i][1] \in 0..h.n /\ s[i][2] \in s[i][1]..h.n
    [] h.op = "grow" -> In(s, h.n) /\ Mono(s)
    [] h.op = "own" -> s = [i \in 1..h.n |-> i]
VARIABLE i
Init == i = 0
Next == i < N /\ OK(H[i + 1]) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Report == PrintT(<<"BULK", TLCGet("stats").diameter - 1, N>>)
=============================================================================
