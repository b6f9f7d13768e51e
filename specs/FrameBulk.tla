------------------------------ MODULE FrameBulk ------------------------------
(* Long runs on frames. One record per run; each is characterised directly:      *)
(*  seen:  what the readers of a slot saw whose only writer wrote 1, 2, .. n      *)
(*         (0 before): no reader ever goes back, and everything was written;       *)
(*         for a slot that is also removed, -1 (no such slot) is allowed            *)
(*  pairs: clones of a frame whose writer sets a then b to 1, 2, ..: one instant    *)
(*         each, a = b or a = b + 1, never going back                                *)
(*  self:  a function inherited by all frames always runs with its own receiver     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
H == ndJsonDeserialize(IOEnv.VERIF_TRACE)
N == Len(H)
Mono(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Pos(s) == SelectSeq(s, LAMBDA x : x >= 0)
SeenOK(h) == \A k \in 1..Len(h.res) : LET s == h.res[k] IN
               /\ \A i \in 1..Len(s) : s[i] \in 0..h.n \/ (h.gone /\ s[i] = -1)
               /\ Mono(Pos(s))
PairsOK(h) == \A k \in 1..Len(h.res) : LET s == h.res[k] IN
               /\ \A i \in 1..Len(s) : s[i][1] \in 0..h.n /\ (s[i][1] = s[i][2] \/ s[i][1] = s[i][2] + 1)
               /\ \A i \in 1..(Len(s) - 1) : s[i][1] <= s[i + 1][1] /\ s[i][2] <= s[i + 1][2]
\*  some:  there is always one, be it the frame's own or the inherited one
SomeOK(h) == \A k \in 1..Len(h.res) : \A i \in 1..Len(h.res[k]) : h.res[k][i] \in 0..h.n
SelfOK(h) == \A k \in 1..Len(h.res) : \A i \in 1..Len(h.res[k]) : h.res[k][i] = h.who[k]
OK(h) == h.finals = h.wantfinals /\ CASE h.op = "seen" -> SeenOK(h) [] h.op = "pairs" -> PairsOK(h) [] h.op = "self" -> SelfOK(h) [] h.op = "some" -> SomeOK(h)
VARIABLE i
Init == i = 0
Next == i < N /\ OK(H[i + 1]) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Report == PrintT(<<"BULK", TLCGet("stats").diameter - 1, N>>)
=============================================================================
