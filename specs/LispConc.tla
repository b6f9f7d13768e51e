------------------------------ MODULE LispConc ------------------------------
(* Programs that run at the same time. A line of the corpus is a prelude, evaluated  *)
(* in a shared scope, and several sessions, each evaluated in a scope of its own      *)
(* below it. The specification gives the meaning of each session alone, starting from *)
(* what the prelude left. A session that writes no scope of the prelude does not      *)
(* interfere: scopes are all the state there is, so all these sessions together, in   *)
(* any interleaving and any number of times, must each give exactly that.             *)
EXTENDS Lisp

Corpus == ndJsonDeserialize(IOEnv.VERIF_CORPUS)     \* [id, f: prelude forms, g: <<session: forms ...>>]

VARIABLE i

Exp(r) == IF r.k = "er" THEN "!E" ELSE IF Printable(r.v) THEN Show(r.v) ELSE "?V"
LogExp(s) == IF Printable(L(s.log)) THEN Show(L(s.log)) ELSE "?V"
Fresh(s) == [s EXCEPT !.log = <<>>, !.fuel = 3000]
SeqOf(S) == LET RECURSIVE Q(_) Q(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o Q(T \ {x}) IN Q(S)
Reads(e, s) == LET ns == SeqOf(DOMAIN s.envs[e].b) IN
  [k \in 1..Len(ns) |-> << ns[k], LET v == s.envs[e].b[ns[k]] IN IF Printable(v) THEN Show(v) ELSE "?V" >>]
FormSteps(t, r) == << <<t, Exp(r)>> >> \o (IF r.s.log = <<>> THEN <<>> ELSE << <<"(vlog)", LogExp(r.s)>> >>)

\* forms fs from the k-th on in scope e: [ok, s, steps]; ok is FALSE when they leave what is specified
RECURSIVE Run(_, _, _, _, _)
Run(fs, k, e, s, steps) ==
  IF k > Len(fs) THEN [ok |-> TRUE, s |-> s, steps |-> steps]
  ELSE LET r == Eval(fs[k].a, e, Fresh(s)) IN
       IF r.k = "sk" THEN [ok |-> FALSE, s |-> s, steps |-> <<>>] ELSE Run(fs, k + 1, e, r.s, steps \o FormSteps(fs[k].t, r))

\* a session alone, below the prelude's scope
Alone(fs, s) == LET s1 == NewEnv(2, [s EXCEPT !.base = Len(s.envs), !.dirty = FALSE])
                    r == Run(fs, 1, Len(s1.envs), s1, <<>>) IN
                [ok |-> r.ok /\ ~r.s.dirty, s |-> r.s, steps |-> r.steps \o (IF r.ok THEN Reads(Len(s1.envs), r.s) ELSE <<>>)]
\* what not interfering means: nothing the others can see has changed
Untouched(s, t) == \A k \in 1..Len(s.envs) : t.envs[k] = s.envs[k]

EmitGroup(id, steps, groups, after) ==
  Serialize(ToJson([id |-> id, s |-> steps, g |-> groups, a |-> after]) \o "\n", Out,
    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

Init == i = 0
Next == /\ i < Len(Corpus)
        /\ i' = i + 1
        /\ LET c == Corpus[i + 1]
               p == Run(c.f, 1, 2, Store0(FALSE), <<>>)
               rs == IF p.ok THEN [k \in 1..Len(c.g) |-> Alone(c.g[k], p.s)] ELSE <<>>
               good == SelectSeq(rs, LAMBDA r : r.ok) IN
           IF Len(good) < 2 THEN PrintT(<<"SKIP", c.id>>)
           ELSE /\ Assert(\A k \in 1..Len(good) : Untouched(p.s, good[k].s), <<"a session that wrote no scope of the prelude changed one", c.id>>)
                /\ EmitGroup(c.id, p.steps, [k \in 1..Len(good) |-> good[k].steps], Reads(2, p.s))
Spec == Init /\ [][Next]_i
=============================================================================
