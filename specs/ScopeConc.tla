----------------------------- MODULE ScopeConc -----------------------------
(* Scopes used by several processes. Scope k is below scope Par(k); 0 is none.     *)
(* define binds in the scope itself; set! and reads walk outwards, looking at one   *)
(* scope at a time: the first binding they meet is read or written in one step.     *)
(* Names stay bound. A named top level environment is registered first and then     *)
(* given its binding; whoever finds it reads the binding later.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Procs, Scopes, Names, Tops, MAXENV
VARIABLES val, tab, idv, pend
svars == <<val, tab, idv, pend>>
None == 0                              \* values are positive
Par(e) == e - 1
Idle == [op |-> "none", e |-> 0, n |-> "", v |-> 0, st |-> "idle", at |-> 0, got |-> [x \in Names |-> ""], res |-> ""]
SInit == /\ pend = [p \in Procs |-> Idle]
         /\ tab = [t \in Tops |-> 1] /\ idv = [k \in 1..MAXENV |-> IF k = 1 THEN 1 ELSE None]     \* set up before: an environment 1 under each name, bound to 1
CallOp(p, op, e, n, v) == /\ pend[p].st = "idle"
                          /\ pend' = [pend EXCEPT ![p] = [Idle EXCEPT !.op = op, !.e = e, !.n = n, !.v = v, !.st = "called", !.at = e]]
                          /\ UNCHANGED <<val, tab, idv>>
Done(p, r) == pend' = [pend EXCEPT ![p].st = "done", ![p].res = r]
Same == UNCHANGED <<val, tab, idv>>
Walks == {"set", "var", "lookup", "bound", "assign"}
Walk(p) ==
  LET o == pend[p] IN
  IF o.at = 0 THEN Same /\ CASE o.op = "var" -> Done(p, "()") [] o.op = "bound" -> Done(p, "#f") [] OTHER -> Done(p, "!E")
  ELSE IF val[o.at][o.n] = None THEN pend' = [pend EXCEPT ![p].at = Par(o.at)] /\ Same
  ELSE CASE o.op \in {"var", "lookup"} -> Same /\ Done(p, ToString(val[o.at][o.n]))
         [] o.op = "bound" -> Same /\ Done(p, "#t")
         [] o.op \in {"set", "assign"} -> val' = [val EXCEPT ![o.at][o.n] = o.v] /\ UNCHANGED <<tab, idv>> /\ Done(p, ToString(o.v))
\* a list, one element for each name in order
Row(p, F(_)) == "(" \o F("x") \o " " \o F("y") \o ")"
Names1(p) == LET o == pend[p] IN Same /\ Done(p, Row(p, LAMBDA x : IF val[o.e][x] = None THEN "0" ELSE "1"))
\* the bindings: which names there are at one instant, each value at a later one
Binds(p) ==
  LET o == pend[p] IN
  IF o.st = "called" THEN Same /\ pend' = [pend EXCEPT ![p].st = "read", ![p].got = [x \in Names |-> IF val[o.e][x] = None THEN "0" ELSE ""]]
  ELSE IF \E x \in Names : o.got[x] = "" THEN Same /\ \E x \in Names : o.got[x] = "" /\ pend' = [pend EXCEPT ![p].got[x] = ToString(val[o.e][x])]
  ELSE Same /\ Done(p, Row(p, LAMBDA x : o.got[x]))
Envs == {tab[t] : t \in Tops} \cup {pend[p].at : p \in {q \in Procs : pend[q].op \in {"make", "find"}}}      \* the environments somebody can still reach
Make(p) ==
  LET o == pend[p] IN
  IF o.st = "called" THEN LET k == CHOOSE k \in 1..MAXENV : k \notin Envs IN
                          tab' = [tab EXCEPT ![o.n] = k] /\ pend' = [pend EXCEPT ![p].st = "bind", ![p].at = k] /\ idv' = [idv EXCEPT ![k] = None] /\ UNCHANGED val
  ELSE idv' = [idv EXCEPT ![o.at] = o.v] /\ UNCHANGED <<val, tab>> /\ Done(p, ToString(o.v))
FindTop(p) ==
  LET o == pend[p] IN
  IF o.st = "called" THEN Same /\ pend' = [pend EXCEPT ![p].st = "read", ![p].at = tab[o.n]]
  ELSE Same /\ Done(p, IF idv[o.at] = None THEN "()" ELSE ToString(idv[o.at]))
Effect(p) ==
  LET o == pend[p] IN
  /\ o.st \notin {"idle", "done"}
  /\ IF o.op \in Walks THEN Walk(p)
     ELSE CASE o.op = "def" -> val' = [val EXCEPT ![o.e][o.n] = o.v] /\ UNCHANGED <<tab, idv>> /\ Done(p, "*")
            [] o.op = "names" -> Names1(p)
            [] o.op = "binds" -> Binds(p)
            [] o.op = "make" -> Make(p)
            [] o.op = "find" -> FindTop(p)
Return(p) == pend[p].st = "done" /\ pend' = [pend EXCEPT ![p] = Idle] /\ Same
Pending(p) == pend[p].st \notin {"idle", "done"}
=============================================================================
