------------------------------ MODULE Console ------------------------------
(* What appears on the console: the text that programs write there, in order,   *)
(* to the loggers what is logged; under lisp-trace one line for every            *)
(* evaluation that begins and ends, nested as they are; tracing and the other     *)
(* debug settings are remembered and change no value.                            *)
(* out: what has been logged; tr, db: the two trace settings; on: names of the    *)
(* functions that are to be debugged on entry.                                    *)
EXTENDS Emit, Integers, FiniteSets, SequencesExt
CONSTANTS PART, DEPTH, RANDOM
VARIABLES out, tr, db, on, steps
vars == <<out, tr, db, on, steps>>
RE(S) == RandomElement(S)
Q(src, e) == << <<src, e>> >>
Quoted(s) == "\"" \o s \o "\""

\* ---- expressions and their evaluation: e is an expression, d its depth, env what its names are bound to
\* <<"n", k>> <<"v", name>> <<"q", text>> <<"ap", op, es>> <<"if", c, t, e>> <<"let", form, names, es, body>> <<"begin", es>> <<"and", es>> <<"or", es>> <<"lam", names, body, es>> <<"f", name, es>> <<"bad", e>>
RECURSIVE Text(_), LamText(_)
Texts(es) == [i \in 1..Len(es) |-> Text(es[i])]
Binds(ns, es) == Paren([i \in 1..Len(ns) |-> "(" \o ns[i] \o " " \o Text(es[i]) \o ")"])
Text(e) == CASE e[1] = "n" -> IF e[2] < 0 THEN "-" \o Str(0 - e[2]) ELSE Str(e[2]) [] e[1] = "v" -> e[2] [] e[1] = "q" -> "'" \o e[2] [] e[1] = "ap" -> Call(e[2], Texts(e[3])) [] e[1] = "if" -> Call("if", <<Text(e[2]), Text(e[3]), Text(e[4])>>)
             [] e[1] = "let" -> Call(e[2], <<Binds(e[3], e[4]), Text(e[5])>>) [] e[1] \in {"begin", "and", "or"} -> Call(e[1], Texts(e[2])) [] e[1] = "lam" -> "(" \o JoinWith(<<LamText(e)>> \o Texts(e[4]), " ") \o ")"
             [] e[1] = "f" -> Call(e[2], Texts(e[3])) [] e[1] = "bad" -> "(car " \o Text(e[2]) \o " 2)"
LamText(e) == "(lambda " \o Paren(e[2]) \o " " \o Text(e[3]) \o ")"
Num(k) == <<"i", k>>
Txt(s) == <<"s", s>>
Fail == <<"!", "error">>
Show(v) == IF v[1] = "i" THEN (IF v[2] < 0 THEN "-" \o Str(0 - v[2]) ELSE Str(v[2])) ELSE v[2]
True(v) == ~(v[1] = "s" /\ v[2] \in {"#f", "()"})
Globals == [vinc |-> <<"x">>, vsub |-> <<"x", "y">>]
BodyOf(f) == CASE f = "vinc" -> <<"ap", "+", <<<<"v", "x">>, <<"n", 1>>>>>> [] f = "vsub" -> <<"if", <<"ap", "<", <<<<"v", "x">>, <<"v", "y">>>>>>, <<"n", 0>>, <<"ap", "-", <<<<"v", "x">>, <<"v", "y">>>>>>>>
In(d, s) == << Quoted(">" \o s) >>
Res(d, v) == << Quoted("<" \o Show(v)) >>
Head1(d, f, shown) == In(d, f) \o << Quoted("<" \o shown) >>
Prim(f) == "<prim: " \o f \o ">"
RECURSIVE SumI(_)
SumI(vs) == IF vs = <<>> THEN 0 ELSE Head(vs)[2] + SumI(Tail(vs))
RECURSIVE MulI(_)
MulI(vs) == IF vs = <<>> THEN 1 ELSE Head(vs)[2] * MulI(Tail(vs))
ApplyOp(f, vs) == IF f = "list" THEN Txt(Paren([i \in 1..Len(vs) |-> Show(vs[i])])) ELSE IF \E i \in 1..Len(vs) : vs[i][1] # "i" THEN Fail
                  ELSE CASE f = "+" -> Num(SumI(vs)) [] f = "*" -> Num(MulI(vs)) [] f = "-" -> Num(vs[1][2] - SumI(Tail(vs))) [] f = "<" -> Txt(Bool(vs[1][2] < vs[2][2]))
\* the lines and the value
RECURSIVE Ev(_, _, _)
\* several in a row, until one fails or stop(value) holds
RECURSIVE Row(_, _, _, _)
Row(es, d, env, stop) == IF es = <<>> THEN [l |-> <<>>, vs |-> <<>>, ok |-> TRUE] ELSE LET r == Ev(Head(es), d, env) IN
                         IF r.v = Fail THEN [l |-> r.l, vs |-> <<>>, ok |-> FALSE]
                         ELSE IF (stop = "and" /\ ~True(r.v)) \/ (stop = "or" /\ True(r.v)) THEN [l |-> r.l, vs |-> <<r.v>>, ok |-> TRUE]
                         ELSE LET q == Row(Tail(es), d, env, stop) IN [l |-> r.l \o q.l, vs |-> <<r.v>> \o q.vs, ok |-> q.ok]
RECURSIVE Bound(_, _, _)
Bound(env, ns, vs) == IF ns = <<>> THEN env ELSE Bound((ns[1] :> vs[1]) @@ env, Tail(ns), Tail(vs))
\* let*: each in the scope of those before
RECURSIVE RowStar(_, _, _, _)
RowStar(ns, es, d, env) == IF es = <<>> THEN [l |-> <<>>, env |-> env, ok |-> TRUE] ELSE LET r == Ev(es[1], d, env) IN
                           IF r.v = Fail THEN [l |-> r.l, env |-> env, ok |-> FALSE] ELSE LET q == RowStar(Tail(ns), Tail(es), d, (ns[1] :> r.v) @@ env) IN [q EXCEPT !.l = r.l \o q.l]
Done(d, pre, r) == IF r.v = Fail THEN [l |-> pre \o r.l, v |-> Fail] ELSE [l |-> pre \o r.l \o Res(d, r.v), v |-> r.v]
LastOf(q) == IF ~q.ok THEN Fail ELSE q.vs[Len(q.vs)]
Ev(e, d, env) == LET me == In(d, Text(e)) k == e[1] IN
  CASE k = "n" -> [l |-> me \o Res(d, Num(e[2])), v |-> Num(e[2])]
    [] k = "v" -> [l |-> me \o Res(d, env[e[2]]), v |-> env[e[2]]]
    [] k = "q" -> [l |-> me \o Head1(d, "quote", Prim("quote")) \o Res(d, Txt(e[2])), v |-> Txt(e[2])]
    [] k = "ap" -> LET q == Row(e[3], d, env, "") IN Done(d, me \o Head1(d, e[2], Prim(e[2])), [l |-> q.l, v |-> IF q.ok THEN ApplyOp(e[2], q.vs) ELSE Fail])
    [] k = "bad" -> [l |-> me \o Head1(d, "car", Prim("car")), v |-> Fail]
    [] k = "if" -> LET c == Ev(e[2], d, env) IN IF c.v = Fail THEN Done(d, me \o Head1(d, "if", Prim("if")), c) ELSE Done(d, me \o Head1(d, "if", Prim("if")) \o c.l, Ev(IF True(c.v) THEN e[3] ELSE e[4], d, env))
    [] k \in {"begin", "and", "or"} -> LET q == Row(e[2], d, env, k) IN Done(d, me \o Head1(d, k, Prim(k)), [l |-> q.l, v |-> LastOf(q)])
    [] k = "let" -> LET q == Row(e[4], d, env, "") s == RowStar(e[3], e[4], d + 1, env) pre == me \o Head1(d, e[2], Prim(e[2])) IN
                    IF e[2] = "let" THEN (IF ~q.ok THEN [l |-> pre \o q.l, v |-> Fail] ELSE Done(d, pre \o q.l, Ev(e[5], d + 1, Bound(env, e[3], q.vs))))
                    ELSE (IF ~s.ok THEN [l |-> pre \o s.l, v |-> Fail] ELSE Done(d, pre \o s.l, Ev(e[5], d + 1, s.env)))
    [] k = "lam" -> LET q == Row(e[4], d, env, "") pre == me \o In(d, LamText(e)) \o Head1(d, "lambda", Prim("lambda")) \o << Quoted("<<function: unnamed>") >> IN
                    IF ~q.ok THEN [l |-> pre \o q.l, v |-> Fail] ELSE Done(d, pre \o q.l, Ev(e[3], d + 1, Bound(env, e[2], q.vs)))
    [] k = "f" -> LET q == Row(e[3], d, env, "") pre == me \o Head1(d, e[2], "<function: " \o e[2] \o ">") IN
                  IF ~q.ok THEN [l |-> pre \o q.l, v |-> Fail] ELSE Done(d, pre \o q.l, Ev(BodyOf(e[2]), d + 1, Bound([n \in {"a"} |-> Num(7)], Globals[e[2]], q.vs)))
TopEnv == [n \in {"a"} |-> Num(7)]
Traced(e) == LET r == Ev(e, 0, TopEnv) IN Q("(vtrace " \o Text(e) \o ")", Paren(<<Show(r.v)>> \o r.l))
Valued(e) == LET r == Ev(e, 0, TopEnv) IN Q(Text(e), IF r.v = Fail THEN "!E" ELSE Show(r.v))
\* every small expression
E0 == {<<"n", 2>>, <<"v", "a">>, <<"q", "z">>, <<"q", "()">>}
E1 == E0 \cup {<<"ap", "+", <<x, y>>>> : x, y \in E0} \cup {<<"ap", "list", <<x>>>> : x \in E0} \cup {<<"bad", x>> : x \in E0} \cup {<<"f", "vinc", <<x>>>> : x \in E0} \cup {<<"begin", <<x, y>>>> : x, y \in E0} \cup {<<"f", "vsub", <<<<"n", 3>>, x>>>> : x \in E0}
F1 == {<<"n", 2>>, <<"v", "a">>, <<"q", "()">>, <<"ap", "+", <<<<"v", "a">>, <<"n", 1>>>>>>, <<"bad", <<"n", 1>>>>, <<"f", "vinc", <<<<"n", 5>>>>>>}
E2 == {<<"if", x, y, z>> : x, y, z \in F1} \cup {<<k, <<x, y>>>> : k \in {"and", "or", "begin"}, x, y \in F1} \cup {<<"let", k, <<"b", "c">>, <<x, <<"v", "a">>>>, <<"ap", "list", <<<<"v", "b">>, <<"v", "c">>, y>>>>>> : k \in {"let", "let*"}, x, y \in F1}
      \cup {<<"let", "let*", <<"b", "c">>, <<x, <<"v", "b">>>>, y>> : x, y \in F1} \cup {<<"lam", <<"x">>, y, <<x>>>> : x, y \in F1 \cup {<<"ap", "*", <<<<"v", "a">>, <<"n", 2>>>>>>}} \cup {<<"ap", f, <<x, y>>>> : f \in {"*", "-", "<"}, x, y \in F1}
RECURSIVE RExpr(_, _), RArgs(_, _, _)
RArgs(n, d, ns) == [i \in 1..n |-> RExpr(d - 1, ns)]
RExpr(d, ns) == LET k == IF d = 0 THEN RE(1..3) ELSE RE(1..14) n == RE(1..3) IN
  CASE k <= 1 -> <<"n", RE(0..9)>> [] k = 2 -> <<"v", RE(ns)>> [] k = 3 -> <<"q", RE({"z", "()", "(1 2)"})>>
    [] k \in 4..5 -> <<"ap", RE({"+", "*", "-", "list"}), RArgs(n, d, ns)>> [] k = 6 -> <<"if", RExpr(d - 1, ns), RExpr(d - 1, ns), RExpr(d - 1, ns)>> [] k = 7 -> <<RE({"begin", "and", "or"}), RArgs(n, d, ns)>>
    [] k \in 8..9 -> LET b == RE({"b", "c"}) IN <<"let", RE({"let", "let*"}), <<b, "x">>, RArgs(2, d, ns), RExpr(d - 1, ns \cup {b, "x"})>> [] k = 10 -> <<"lam", <<"x">>, RExpr(d - 1, ns \cup {"x"}), RArgs(1, d, ns)>>
    [] k = 11 -> <<"f", "vinc", RArgs(1, d, ns)>> [] k = 12 -> <<"f", "vsub", RArgs(2, d, ns)>> [] k = 13 -> <<"ap", "<", RArgs(2, d, ns)>> [] OTHER -> IF RE(1..4) = 1 THEN <<"bad", RExpr(d - 1, ns)>> ELSE <<"ap", "list", RArgs(n, d, ns)>>

\* ---- writing: <<source, what it writes>>, NL for a new line
NL == "\\n"
Vals == << <<"1", "1", "1">>, <<"\"s t\"", "s t", "\\\"s t\\\"">>, <<"'y", "y", "y">>, <<"'()", "()", "()">>, <<"#t", "#t", "#t">>, <<"1.5", "1.5", "1.5">>, <<"'(1 \"a\")", "(1 \\\"a\\\")", "(1 \\\"a\\\")">>, <<"{a: 1}", "{a: 1}", "{a: 1}">>, <<"car", "<prim: car>", "<prim: car>">>, <<"[1 2]", "[1 2]", "[1 2]">>, <<"\"\"", "", "\\\"\\\"">>, <<"'(a . b)", "(a . b)", "(a . b)">>, <<"a:", "a:", "a:">>, <<"\"%d\"", "%d", "\\\"%d\\\"">> >>
V(i) == Vals[i]
Catted(s, k) == JoinWith([i \in 1..Len(s) |-> V(s[i])[k]], "")
Args(s) == JoinWith([i \in 1..Len(s) |-> V(s[i])[1]], " ")
\* a piece of output: [s: source, o: what the console gets, l: what the loggers get]
Piece(k, s) == CASE k = 1 -> [s |-> Call("write-line", [i \in 1..Len(s) |-> V(s[i])[1]]), o |-> (IF s = <<>> THEN "()" ELSE Catted(s, 2)) \o NL, l |-> ""]
                 [] k = 2 -> [s |-> Call("write-log", [i \in 1..Len(s) |-> V(s[i])[1]]), o |-> (IF s = <<>> THEN "()" ELSE Catted(s, 2)) \o "\\r" \o NL, l |-> (IF s = <<>> THEN "()" ELSE Catted(s, 2)) \o "\\r" \o NL]
                 [] k = 3 -> [s |-> "(write-string \"a \\\"b\\\"" \o Str(Len(s)) \o "\")", o |-> "a \\\"b\\\"" \o Str(Len(s)), l |-> ""] [] k = 4 -> [s |-> "(newline)", o |-> NL, l |-> ""]
                 [] k = 5 -> LET i == IF s = <<>> THEN 1 ELSE s[1] IN [s |-> "(write " \o V(i)[1] \o ")", o |-> V(i)[3], l |-> ""]
                 [] k = 6 -> LET i == IF s = <<>> THEN 1 ELSE s[1] IN [s |-> "(format #t \"<~A|~S>~%\" " \o V(i)[1] \o " " \o V(i)[1] \o ")", o |-> "<" \o V(i)[2] \o "|" \o V(i)[3] \o ">" \o NL, l |-> ""]
                 [] k = 7 -> [s |-> "(format #f \"~A\" " \o Str(Len(s)) \o ")", o |-> "", l |-> ""]
\* wrong uses write nothing
WrongUse == <<"(write-string 5)", "(write-string 'a)", "(write 1 2)", "(newline 3)", "(format 5 \"a\" 1)", "(format #t 5 1)", "(format #t \"~A\")", "(write-string \"a\" \"b\")">>
Shown(ps) == Q("(vshow (begin " \o JoinWith([i \in 1..Len(ps) |-> ps[i].s], " ") \o " 5))", "(5 " \o Quoted(JoinWith([i \in 1..Len(ps) |-> ps[i].o], "")) \o ")")
Logged(ps) == SelectSeq([i \in 1..Len(ps) |-> ps[i].l], LAMBDA x : x # "")
AskLog == Q("(vlogged)", Paren(<<Quoted(JoinWith(out, "")), Quoted(JoinWith([i \in 1..Len(out) |-> "> " \o out[i]], "")), Quoted(JoinWith(out, ""))>>))

\* ---- settings
Fns == <<"vinc", "vsub", "vthird">>
Names(S) == "?|" \o JoinWith([i \in 1..Cardinality({p \in [1..Cardinality(S) -> S] : {p[j] : j \in 1..Cardinality(S)} = S}) |->
              LET ps == SetToSeq({p \in [1..Cardinality(S) -> S] : {p[j] : j \in 1..Cardinality(S)} = S}) IN Paren([j \in 1..Cardinality(S) |-> Quoted(ps[i][j])])], "||")
OnText(S) == IF S = {} THEN "()" ELSE Names(S)
Prelude == Q("(begin (define a 7) (define (vinc x) (+ x 1)) (define (vsub x y) (if (< x y) 0 (- x y))) (define (vthird x) x) (vlogged) (debug-trace #f) (lisp-trace #f) 1)", "1")
Init == out = <<>> /\ tr = FALSE /\ db = FALSE /\ on = {} /\ steps = Prelude
Add(s) == steps' = steps \o s
Once == ~RANDOM /\ Len(steps) = 1
AllTraces == PART = "trace" /\ Once /\ \E e \in E1 \cup E2 : Add(Traced(e) \o Valued(e)) /\ tr' = TRUE /\ UNCHANGED <<out, db, on>>
AllShown == PART = "write" /\ Once /\ \E k \in 1..7 : \E s \in {<<>>} \cup {<<i>> : i \in 1..Len(Vals)} \cup {<<i, j>> : i, j \in 1..Len(Vals)} :
              /\ k \in 1..2 \/ Len(s) <= 1 
              /\ LET p == Piece(k, s) IN Add(Shown(<<p>>)) /\ out' = Logged(<<p>>) /\ UNCHANGED <<tr, db, on>>
AskLogs == out # <<>> /\ Add(AskLog) /\ out' = <<>> /\ UNCHANGED <<tr, db, on>>
AllWrong == PART = "write" /\ ~RANDOM /\ Len(steps) < 3 /\ \E i \in 1..Len(WrongUse) : Add(Q("(vshow " \o WrongUse[i] \o ")", "(error \"\")")) /\ UNCHANGED <<out, tr, db, on>>
\* settings: small enough to go through all their states
SetTr == PART = "set" /\ \E b \in BOOLEAN : tr' = b /\ UNCHANGED <<out, db, on>> /\ Add(Q("(car (vshow (lisp-trace " \o Bool(b) \o ")))", Bool(b)))
SetDb == PART = "set" /\ \E b \in BOOLEAN : db' = b /\ UNCHANGED <<out, tr, on>> /\ Add(Q("(car (vshow (debug-trace " \o Bool(b) \o ")))", Bool(b)))
AskTr == PART = "set" /\ UNCHANGED <<out, tr, db, on>> /\ Add(Q("(car (vshow (list (lisp-trace) (debug-trace))))", Paren(<<Bool(tr), Bool(db)>>)))
OnEntry == PART = "set" /\ \E f \in 1..3 : on' = on \cup {Fns[f]} /\ UNCHANGED <<out, tr, db>> /\ Add(Q("(car (vshow (add-debug-on-entry " \o Fns[f] \o ")))", OnText(on')))
OffEntry == PART = "set" /\ \E f \in 1..3 : on' = on \ {Fns[f]} /\ UNCHANGED <<out, tr, db>> /\ Add(Q("(car (vshow (remove-debug-on-entry " \o Fns[f] \o ")))", OnText(on')))
AskEntry == PART = "set" /\ UNCHANGED <<out, tr, db, on>> /\ Add(Q("(car (vshow (debug-on-entry)))", OnText(on)))
BadEntry == PART = "set" /\ UNCHANGED <<out, tr, db, on>> /\ \E x \in {"5", "car", "\"vinc\"", "'vinc", "'()"}, f \in {"add-debug-on-entry", "remove-debug-on-entry"} : Add(Q("(vshow (" \o f \o " " \o x \o "))", IF tr THEN "*" ELSE "(error \"\")"))
RunIt == PART = "set" /\ UNCHANGED <<out, tr, db, on>> /\ \E e \in (IF RANDOM THEN {RExpr(3, {"a"})} ELSE {<<"ap", "+", <<<<"v", "a">>, <<"n", 2>>>>>>, <<"bad", <<"n", 2>>>>, <<"lam", <<"x">>, <<"v", "x">>, <<<<"n", 4>>>>>>}) :
           /\ \/ on \cap {"vinc", "vsub"} = {} 
              \/ ~RANDOM
           /\ Add(LET r == Ev(e, 0, TopEnv) IN IF r.v = Fail THEN Q("(vshow " \o Text(e) \o ")", IF tr THEN "*" ELSE "(error \"\")") ELSE Q("(car (vshow " \o Text(e) \o "))", Show(r.v)))
Dumped == PART = "set" /\ UNCHANGED <<out, tr, db, on>> /\ Add(Q("(begin (vshow (dump)) (vinc 5))", IF "vinc" \in on THEN "*" ELSE "6")) /\ on = {}
RandomTrace == PART = "trace" /\ RANDOM /\ UNCHANGED <<out, tr, db, on>> /\ \E e \in {RExpr(RE(1..5), {"a"})} : Add(IF RE(1..4) = 1 THEN Valued(e) ELSE Traced(e))
RSeq(z) == [i \in 1..RE(0..4) |-> RE(1..Len(Vals))]
RandomShow == PART = "write" /\ RANDOM /\ \E ps \in {[i \in 1..RE(1..6) |-> Piece(RE(1..7), RSeq(i))]} : Add(Shown(ps)) /\ out' = out \o Logged(ps) /\ UNCHANGED <<tr, db, on>>
Next == AllTraces \/ AllShown \/ AskLogs \/ AllWrong \/ SetTr \/ SetDb \/ AskTr \/ OnEntry \/ OffEntry \/ AskEntry \/ BadEntry \/ RunIt \/ Dumped \/ RandomTrace \/ RandomShow
Spec == Init /\ [][Next]_vars
View == <<out, tr, db, on>>
Off == Q("(car (vshow (lisp-trace #f)))", "#f") \o Q("(begin (debug-trace #f) (remove-debug-on-entry vinc) (remove-debug-on-entry vsub) (remove-debug-on-entry vthird))", "()")
Bounded == Len(steps) < DEPTH
BoundedNext == TRUE
\* evaluations end in the order opposite to that in which they begin, except those that fail
Balanced == tr \/ PART # "trace" \/ Len(steps) > 1 \/ \A e \in E1 : LET r == Ev(e, 0, TopEnv) IN r.v = Fail \/ Len(r.l) % 2 = 0
EmitEdge == EmitSteps("e", steps' \o Off)
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN EmitSteps("p", steps' \o Off) ELSE TRUE
=============================================================================
