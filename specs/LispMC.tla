------------------------------- MODULE LispMC -------------------------------
(* Sessions over a small alphabet of forms, all of them up to a length.           *)
EXTENDS Lisp

CONSTANT DEPTH
Forms == ndJsonDeserialize(IOEnv.VERIF_CORPUS)      \* [t, a]

VARIABLES store, steps, n

Exp(r) == IF r.k = "er" THEN "!E" ELSE IF Printable(r.v) THEN Show(r.v) ELSE "?V"
LogExp(s) == IF Printable(L(s.log)) THEN Show(L(s.log)) ELSE "?V"
Fresh(s) == [s EXCEPT !.log = <<>>, !.fuel = 3000]
SeqOf(S) == LET RECURSIVE Q(_) Q(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o Q(T \ {x}) IN Q(S)
Reads(s) == LET ns == SeqOf(DOMAIN s.envs[2].b) IN
  [k \in 1..Len(ns) |-> << ns[k], LET v == s.envs[2].b[ns[k]] IN IF Printable(v) THEN Show(v) ELSE "?V" >>]

Init == store = Store0(FALSE) /\ steps = <<>> /\ n = 0
Next == \E k \in 1..Len(Forms) :
   LET r == Eval(Forms[k].a, 2, store) IN
   /\ r.k # "sk"
   /\ store' = Fresh(r.s)
   /\ steps' = steps \o << <<Forms[k].t, Exp(r)>> >> \o (IF r.s.log = <<>> THEN <<>> ELSE << <<"(vlog)", LogExp(r.s)>> >>)
   /\ n' = n + 1
Spec == Init /\ [][Next]_<<store, steps, n>>

\* what the properties say about every reachable store
BuiltinsKept == \A x \in DOMAIN store.envs[1].b : ~Builtin(x)
RestrictedBelow == \A e \in 3..Len(store.envs) : store.envs[e].p # 0     \* scopes stay attached to a parent
NeverUnrestricted == [][\A e \in 1..Len(store.envs) : store.envs[e].r => store'.envs[e].r]_store
NoDangling == \A e \in 1..Len(store.envs) : \A x \in DOMAIN store.envs[e].b :
    LET v == store.envs[e].b[x] IN v[1] = "f" => v[2] \in 1..Len(store.fns)

View == store
Bounded == n < DEPTH
EmitEdge == EmitSteps("e", steps' \o Reads(store'))
=============================================================================
