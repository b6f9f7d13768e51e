------------------------------ MODULE AtomBulk ------------------------------
(* Long runs of one kind of atomic operation by several processes at once. For  *)
(* these, linearizability (AtomConc) has a direct characterisation:              *)
(*  add 1:  the results of all processes are exactly 1..total, each once, each    *)
(*          process sees them increasing, and the final value is total;           *)
(*  swap:   with all stored values different, the results and the final value     *)
(*          together are exactly the initial value and the stored values;          *)
(*  cas i -> i+1 for every i by every process: each i succeeds at most once, and    *)
(*          the final value is the number of successes.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
H == ndJsonDeserialize(IOEnv.VERIF_TRACE)
N == Len(H)
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Total(h) == Sum([i \in 1..Len(h.res) |-> Len(h.res[i])], Len(h.res))
AddOK(h)  == /\ UNION {Range(h.res[i]) : i \in 1..Len(h.res)} = 1..Total(h)
             /\ h.final = Total(h)
             /\ \A i \in 1..Len(h.res) : \A j \in 1..(Len(h.res[i]) - 1) : h.res[i][j] < h.res[i][j + 1]
SwapOK(h) == LET back == UNION {Range(h.res[i]) : i \in 1..Len(h.res)} \cup {h.final}
             IN Cardinality(back) = Total(h) + 1 /\ back = 0..Total(h)
CasOK(h)  == LET wins == UNION {Range(h.res[i]) : i \in 1..Len(h.res)}
             IN Cardinality(wins) = Total(h) /\ h.final = Total(h) /\ wins = 0..(Total(h) - 1)
OK(h) == CASE h.op = "add" -> AddOK(h) [] h.op = "swap" -> SwapOK(h) [] h.op = "cas" -> CasOK(h)
VARIABLE i
Init == i = 0
Next == i < N /\ OK(H[i + 1]) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Report == PrintT(<<"BULK", TLCGet("stats").diameter - 1, N>>)
=============================================================================
