----------------------------- MODULE FrameConc -----------------------------
(* Frames used by several processes: call, one effect at one instant, return.   *)
(* par gives each frame's parents (fixed while the processes run).               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Procs, Frames, SlotNames
VARIABLES own, par, pend
fvars == <<own, par, pend>>
Idle == [op |-> "none", f |-> 0, s |-> "", v |-> 0, st |-> "idle", res |-> ""]
None == 0   \* slot values are positive numbers
FInit == pend = [p \in Procs |-> Idle]
CallOp(p, op, f, s, v) == /\ pend[p].st = "idle"
                          /\ pend' = [pend EXCEPT ![p] = [op |-> op, f |-> f, s |-> s, v |-> v, st |-> "called", res |-> ""]]
                          /\ UNCHANGED <<own, par>>
RECURSIVE Find(_, _, _)
Find(todo, seen, s) ==
  IF todo \subseteq seen THEN {}
  ELSE LET f == CHOOSE x \in todo \ seen : TRUE
       IN IF own[f][s] # None THEN {own[f][s]} \cup Find(todo, seen \cup {f}, s) ELSE Find(todo \cup par[f], seen \cup {f}, s)
Vals(f, s) == Find({f}, {}, s)
Done(p, r) == pend' = [pend EXCEPT ![p].st = "done", ![p].res = r]
Set(f, s, v) == own' = [own EXCEPT ![f][s] = v] /\ UNCHANGED par
Same == UNCHANGED <<own, par>>
Show(v) == IF v = None THEN "none" ELSE ToString(v)
Effect(p) ==
  LET o == pend[p] vs == Vals(o.f, o.s) IN
  /\ o.st = "called"
  /\ CASE o.op = "get"    -> Same /\ IF vs = {} THEN Done(p, "!E") ELSE \E v \in vs : Done(p, ToString(v))
       [] o.op = "getnil" -> Same /\ IF vs = {} THEN Done(p, "()") ELSE \E v \in vs : Done(p, ToString(v))
       [] o.op = "var"    -> Same /\ IF vs = {} THEN Done(p, "()") ELSE \E v \in vs : Done(p, ToString(v))   \* through a slot function
       [] o.op = "has"    -> Same /\ Done(p, IF vs = {} THEN "#f" ELSE "#t")
       [] o.op = "set"    -> Set(o.f, o.s, o.v) /\ Done(p, ToString(o.v))
       [] o.op = "remove" -> Set(o.f, o.s, None) /\ Done(p, IF own[o.f][o.s] = None THEN "#f" ELSE "#t")
       [] o.op = "clone"  -> Same /\ Done(p, "(" \o Show(own[o.f]["a"]) \o " " \o Show(own[o.f]["b"]) \o ")")
       [] o.op = "who"    -> Same /\ Done(p, ToString(o.f))
Return(p) == pend[p].st = "done" /\ pend' = [pend EXCEPT ![p] = Idle] /\ Same
=============================================================================
