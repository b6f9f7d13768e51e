------------------------------ MODULE LispSess ------------------------------
(* Whole programs: each line of the corpus is a session, a sequence of forms; the  *)
(* specification evaluates them one after another and says what each must yield,   *)
(* which effects it must have had, and what the bindings are in the end.           *)
EXTENDS Lisp

Corpus == ndJsonDeserialize(IOEnv.VERIF_CORPUS)     \* [id, r (restricted), f: <<[t (text), a (syntax)]...>>, h: names to read at the end]

VARIABLE i

Exp(r) == IF r.k = "er" THEN "!E" ELSE IF Printable(r.v) THEN Show(r.v) ELSE "?V"
LogExp(s) == IF Printable(L(s.log)) THEN Show(L(s.log)) ELSE "?V"
Fresh(s) == [s EXCEPT !.log = <<>>, !.fuel = 3000]
SeqOf(S) == LET RECURSIVE Q(_) Q(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o Q(T \ {x}) IN Q(S)
\* what every name bound in the session's scope is bound to
Reads(s) == LET ns == SeqOf(DOMAIN s.envs[2].b) IN
  [k \in 1..Len(ns) |-> << ns[k], LET v == s.envs[2].b[ns[k]] IN IF Printable(v) THEN Show(v) ELSE "?V" >>]
FormSteps(t, r) == << <<t, Exp(r)>>, <<"(vlog)", LogExp(r.s)>> >>

RECURSIVE Run(_, _, _, _)
Run(fs, k, s, steps) ==
  IF k > Len(fs) THEN steps \o Reads(s)
  ELSE LET r == Eval(fs[k].a, 2, Fresh(s)) IN
       IF r.k = "sk" THEN (IF PrintT(<<"SKIP", r.v>>) THEN steps \o Reads(s) ELSE steps \o Reads(s)) ELSE Run(fs, k + 1, r.s, steps \o FormSteps(fs[k].t, r))

Init == i = 0
Next == /\ i < Len(Corpus)
        /\ i' = i + 1
        /\ LET c == Corpus[i + 1]
               st == Run(c.f, 1, Store0(FALSE), <<>>) IN
           IF Len(st) > 0 THEN EmitSteps(c.id, st) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
