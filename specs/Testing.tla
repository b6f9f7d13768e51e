------------------------------ MODULE Testing ------------------------------
(* The test library, lisp/testing.lsp.  A context evaluates its setup afresh      *)
(* before each of its clauses; a clause counts every assertion that is reached as  *)
(* a pass or a failure and ends at its first error, which counts as one; the       *)
(* clauses after it are run all the same.  Failures and errors are reported with   *)
(* the names of their context and clause.  run-test starts from nothing and tells  *)
(* whether there were neither failures nor errors.                                 *)
EXTENDS Emit, Integers, FiniteSets
CONSTANTS RANDOM, DEPTH, LIB, MAXITEMS
VARIABLES t,        \* p, f, e: what was counted; fm, em: what was reported (newest first)
          clause,   \* exhaustively: the items of the clause
          steps
vars == <<t, clause, steps>>
RE(S) == RandomElement(S)
NoX == 99
\* items: <<source, kind, condition, header, message>>
Items == {"true", "true0", "false", "false5", "nil", "nil1", "nnil", "nnil0", "eq", "eqx1", "eqx2", "neqx1", "neqx2", "err", "err3", "nerr", "nerrq", "memq", "memqc", "incx", "boom", "inboom", "probe", "twice", "eqlist", "erreq"}
Src(i) == CASE i = "true" -> "(assert-true (vprobe 1))" [] i = "true0" -> "(assert-true '())" [] i = "false" -> "(assert-false (vprobe #f))" [] i = "false5" -> "(assert-false (vprobe 5))"
  [] i = "nil" -> "(assert-nil '())" [] i = "nil1" -> "(assert-nil (vprobe 1))" [] i = "nnil" -> "(assert-not-nil (vprobe 1))" [] i = "nnil0" -> "(assert-not-nil '())"
  [] i = "eq" -> "(assert-eq (vprobe 1) (vprobe 1))" [] i = "eqx1" -> "(assert-eq vx 1)" [] i = "eqx2" -> "(assert-eq vx 2)" [] i = "neqx1" -> "(assert-neq vx 1)" [] i = "neqx2" -> "(assert-neq vx 2)"
  [] i = "err" -> "(assert-error (begin (vprobe 2) (error \\\"z\\\")))" [] i = "err3" -> "(assert-error (vprobe 3))" [] i = "nerr" -> "(assert-nerror (vprobe 3))" [] i = "nerrq" -> "(assert-nerror (error \\\"q\\\"))"
  [] i = "memq" -> "(assert-memq '(a b) 'b)" [] i = "memqc" -> "(assert-memq '(a b) 'c)" [] i = "incx" -> "(set! vx (+ vx 1))" [] i = "boom" -> "(begin (vprobe 8) (error \\\"boom\\\"))" [] i = "inboom" -> "(assert-true (begin (vprobe 7) (car 1 2)))"
  [] i = "probe" -> "(vprobe 9)" [] i = "twice" -> "(for-each (lambda (y) (assert-eq y 1)) '(1 2))" [] i = "eqlist" -> "(assert-eq '(1 2) (list 1 2))" [] OTHER -> "(assert-eq (error \\\"z\\\") (vprobe 6))"
Hd(i) == CASE i = "true0" -> "(assert-true '())" [] i = "false5" -> "(assert-false (vprobe 5))" [] i = "nil1" -> "(assert-null (vprobe 1))" [] i = "nnil0" -> "(assert-not-null '())" [] i = "eqx1" -> "(assert-eq vx 1)" [] i = "eqx2" -> "(assert-eq vx 2)"
  [] i = "neqx1" -> "(assert-neq vx 1)" [] i = "neqx2" -> "(assert-neq vx 2)" [] i = "err3" -> "(assert-error (vprobe 3))" [] i = "nerrq" -> "(assert-nerror (error \\\"q\\\"))" [] i = "memqc" -> "(assert-memq '(a b) 'c)" [] OTHER -> "(assert-eq y 1)"
Why(i, x) == CASE i = "true0" -> "expected true, but was false" [] i = "false5" -> "expected false, but was true" [] i = "nil1" -> "expected nil, but wasn't" [] i = "nnil0" -> "expected not nil, but was"
  [] i = "eqx1" -> "expected 1, but was " \o Str(x) [] i = "eqx2" -> "expected 2, but was " \o Str(x) [] i = "neqx1" -> "did not expect 1, but it was" [] i = "neqx2" -> "did not expect 2, but it was"
  [] i = "err3" -> "expected an error, but there wasn't" [] i = "nerrq" -> "expected no error, but error was " [] i = "memqc" -> "expected '(a b) to contain c, but it didn't" [] OTHER -> "expected 1, but was 2"
Logs(i) == CASE i \in {"true", "nil1", "nnil"} -> <<"1">> [] i = "false" -> <<"#f">> [] i = "false5" -> <<"5">> [] i = "eq" -> <<"1", "1">> [] i = "err" -> <<"2">> [] i \in {"err3", "nerr"} -> <<"3">> [] i = "boom" -> <<"8">> [] i = "inboom" -> <<"7">> [] i = "probe" -> <<"9">> [] OTHER -> <<>>
\* what an item comes to: passes, fails, ends the clause
Failing(i, x) == CASE i \in {"true0", "false5", "nil1", "nnil0", "err3", "nerrq", "memqc", "twice"} -> 1 [] i = "eqx1" -> (IF x = 1 THEN 0 ELSE 1) [] i = "eqx2" -> (IF x = 2 THEN 0 ELSE 1) [] i = "neqx1" -> (IF x = 1 THEN 1 ELSE 0) [] i = "neqx2" -> (IF x = 2 THEN 1 ELSE 0) [] OTHER -> 0
Passing(i, x) == CASE i \in {"true", "false", "nil", "nnil", "eq", "err", "nerr", "memq", "twice", "eqlist"} -> 1 [] i \in {"eqx1", "eqx2", "neqx1", "neqx2"} -> 1 - Failing(i, x) [] OTHER -> 0
Ends(i) == i \in {"boom", "inboom", "erreq"}
\* w: the counts, what was logged, vx in this clause, whether it has ended, whether everything has
RECURSIVE Clause(_, _, _, _)
Clause(w, cn, it, is) == IF is = <<>> THEN w ELSE
  LET i == is[1] x == w.x
      a == [w EXCEPT !.p = @ + Passing(i, x), !.f = @ + Failing(i, x), !.log = @ \o Logs(i), !.x = IF i = "incx" THEN @ + 1 ELSE @,
                     !.fm = IF Failing(i, x) = 1 THEN << <<cn \o " " \o it \o ":", "    " \o Hd(i), "      - " \o Why(i, x)>> >> \o @ ELSE @]
  IN IF Ends(i) THEN [a EXCEPT !.e = @ + 1, !.em = <<cn \o " " \o it \o ":">> \o @] ELSE Clause(a, cn, it, Tail(is))
\* setups: <<source, what it logs, vx, fails>>
Setups == {"one", "logged", "steps", "bad", "badnow"}
SetupSrc(s) == CASE s = "one" -> "((define vx 1))" [] s = "logged" -> "((define vx 1) (vprobe 0))" [] s = "steps" -> "((vprobe 4) (define vx 5) (set! vx (- vx 3)))" [] s = "bad" -> "((define vx 1) (vprobe 0) (error \\\"setup\\\"))" [] OTHER -> "((no-such-function))"
SetupLog(s) == CASE s \in {"logged", "bad"} -> <<"0">> [] s = "steps" -> <<"4">> [] OTHER -> <<>>
SetupX(s) == IF s = "steps" THEN 2 ELSE 1
\* a context: [cn, setup, its], its a sequence of <<name, items>>
RECURSIVE Ctx(_, _, _, _)
Ctx(w, cn, s, its) == IF its = <<>> \/ w.dead THEN w
  ELSE LET a == [w EXCEPT !.log = @ \o SetupLog(s), !.x = SetupX(s)]
       IN IF s \in {"bad", "badnow"} THEN [a EXCEPT !.dead = TRUE] ELSE Ctx(Clause(a, cn, its[1][1], its[1][2]), cn, s, Tail(its))
RECURSIVE File(_, _)
File(w, cs) == IF cs = <<>> \/ w.dead THEN w ELSE File(Ctx(w, cs[1].cn, cs[1].setup, cs[1].its), Tail(cs))
ItSrc(it) == Call("it", <<"\\\"" \o it[1] \o "\\\"">> \o [i \in 1..Len(it[2]) |-> Src(it[2][i])])
CtxSrc(c) == Call("context", <<"\\\"" \o c.cn \o "\\\"", SetupSrc(c.setup)>> \o [i \in 1..Len(c.its) |-> ItSrc(c.its[i])])
FileSrc(cs) == JoinWith([i \in 1..Len(cs) |-> CtxSrc(cs[i])], "\\n")
Zero == [p |-> 0, f |-> 0, e |-> 0, fm |-> <<>>, em |-> <<>>]
Start(v) == [p |-> v.p, f |-> v.f, e |-> v.e, fm |-> v.fm, em |-> v.em, log |-> <<>>, x |-> NoX, dead |-> FALSE]
Keep(w) == [p |-> w.p, f |-> w.f, e |-> w.e, fm |-> w.fm, em |-> w.em]
Quote(s) == "\"" \o s \o "\""
Shows(w) == << <<"(vlog)", Paren(w.log)>>, <<"(list number-of-passes number-of-failures number-of-errors)", Paren(<<Str(w.p), Str(w.f), Str(w.e)>>)>>,
  <<"(map (lambda (m) (take 3 (string-split m \"\\n\"))) failure-messages)", Paren([i \in 1..Len(w.fm) |-> Paren([k \in 1..3 |-> Quote(w.fm[i][k])])])>>,
  <<"(map (lambda (m) (car (string-split m \"\\n\"))) error-messages)", Paren([i \in 1..Len(w.em) |-> Quote(w.em[i])])>> >>
Write(cs) == << <<"(vput (vfn 1) \"" \o FileSrc(cs) \o "\")", "()">> >>
\* how it is run: in the way of the user, quietly or not; by loading the file, which goes on counting
Run(v, cs, how) == LET w == File(Start(IF how = "load" THEN v ELSE Zero), cs) IN
  Write(cs) \o << <<CASE how = "run" -> "(run-test (vfn 1))" [] how = "verbose" -> "(run-test (vfn 1) #t)" [] OTHER -> "(load (vfn 1))", IF w.dead THEN "!E" ELSE IF how = "load" THEN "*" ELSE Bool(w.f = 0 /\ w.e = 0)>> >> \o Shows(w)
After(v, cs, how) == Keep(File(Start(IF how = "load" THEN v ELSE Zero), cs))
Prepare == << <<"(begin (vclear) (load \"" \o LIB \o "\") (reset-testing) 1)", "1", "g">> >>
Clean == << <<"(vclear)", "()">> >>
Init == t = Zero /\ clause = <<>> /\ steps = IF RANDOM THEN Prepare ELSE <<>>
C1(cn, s, its) == [cn |-> cn, setup |-> s, its |-> its]
Grow == ~RANDOM /\ Len(clause) < MAXITEMS /\ \E i \in Items : clause' = Append(clause, i) /\ UNCHANGED t
   /\ \E s \in Setups, how \in {"run", "load", "verbose"} : (how = "verbose" => s = "logged") /\ (s = "badnow" => how = "run")
        /\ LET cs == <<C1("c1", s, << <<"a", clause'>>, <<"b", <<"eqx1", "eqx2", "probe">> >> >>), C1("c2", "one", << <<"a", <<"eqx1">> >> >>)>> IN
           steps' = Prepare \o Run(Zero, cs, how) \o << <<"(begin (reset-testing) (list number-of-passes number-of-failures number-of-errors failure-messages error-messages verbose-tests))", "(0 0 0 () () ())">> >> \o Clean
RECURSIVE RItems(_)
RItems(n) == IF n = 0 THEN <<>> ELSE LET i == RE(Items) IN <<i>> \o RItems(n - 1)
RECURSIVE RIts(_)
RIts(n) == IF n = 0 THEN <<>> ELSE LET k == RE(0..5) nm == RE({"a", "b", "does it"}) s == RItems(k) IN << <<nm, s>> >> \o RIts(n - 1)
RECURSIVE RCtxs(_)
RCtxs(n) == IF n = 0 THEN <<>> ELSE LET k == RE(0..3) nm == RE({"c1", "the list", "c 3"}) j == RE(1..12) s == (IF j = 1 THEN "bad" ELSE RE({"one", "logged", "steps"})) IN <<C1(nm, s, RIts(k))>> \o RCtxs(n - 1)
Random == RANDOM /\ UNCHANGED clause /\ \E n \in {RE(0..3)}, how \in {RE({"run", "verbose", "load", "load"})} : \E cs \in {RCtxs(n)} : steps' = steps \o Run(t, cs, how) /\ t' = After(t, cs, how)
Next == Grow \/ Random
Spec == Init /\ [][Next]_vars
View == <<t, clause>>
Bounded == TRUE
BoundedNext == TRUE
\* everything counted is reported, in as many words
Reported == Len(t.fm) = t.f /\ Len(t.em) = t.e
\* a clause does not depend on the ones before it, except for where the counting starts
Apart == LET c(v) == Clause([Start(v) EXCEPT !.x = 1], "c", "i", clause) IN c([Zero EXCEPT !.p = 3, !.f = 0, !.e = 0]).p = c(Zero).p + 3
EmitEdge == EmitSteps("e", steps')
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN EmitSteps("p", steps' \o Clean) ELSE TRUE
=============================================================================
