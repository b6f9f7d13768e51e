------------------------------ MODULE AtomConc ------------------------------
(* Atomics used by several processes: call, one effect, return.                *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Procs, Ats
VARIABLES val, pend
avars == <<val, pend>>
Idle == [op |-> "none", a |-> 0, x |-> 0, y |-> 0, st |-> "idle", res |-> ""]
AInit == pend = [p \in Procs |-> Idle]
CallOp(p, op, a, x, y) == /\ pend[p].st = "idle"
                          /\ pend' = [pend EXCEPT ![p] = [op |-> op, a |-> a, x |-> x, y |-> y, st |-> "called", res |-> ""]]
                          /\ UNCHANGED val
Done(p, r) == pend' = [pend EXCEPT ![p].st = "done", ![p].res = r]
Effect(p) ==
  LET o == pend[p]  cur == val[o.a]  Set(v) == val' = [val EXCEPT ![o.a] = v] IN
  /\ o.st = "called"
  /\ CASE o.op = "load"  -> Done(p, ToString(cur)) /\ UNCHANGED val
       [] o.op = "store" -> Done(p, "()") /\ Set(o.x)
       [] o.op = "add"   -> Done(p, ToString(cur + o.x)) /\ Set(cur + o.x)
       [] o.op = "swap"  -> Done(p, ToString(cur)) /\ Set(o.x)
       [] o.op = "cas"   -> IF cur = o.x THEN Done(p, "#t") /\ Set(o.y) ELSE Done(p, "#f") /\ UNCHANGED val
Return(p) == pend[p].st = "done" /\ pend' = [pend EXCEPT ![p] = Idle] /\ UNCHANGED val
=============================================================================
