------------------------------ MODULE Totality ------------------------------
(* Every call of a builtin comes back with a value or an error.  A call with a  *)
(* number of arguments the builtin does not take is an error before any of them *)
(* is evaluated; otherwise the arguments are evaluated once each, from left to  *)
(* right, up to the first one that is an error.  Whatever was called, builtins  *)
(* and constants are what they were.                                            *)
EXTENDS Emit, Integers, FiniteSets
CONSTANTS MODE,      \* "small": every builtin with every one or two arguments of the small pool; "arity": every builtin, every count up to 5; "sim": random calls
          SHARD, SHARDS, DEPTH
VARIABLES p, args, n, steps
vars == <<p, args, n, steps>>
RE(S) == RandomElement(S)
Prims == JsonDeserialize("prims.json")      \* name |-> [lo, hi, special, restricted]
Probes == {"vprobe", "vlog", "vsame?"}
AllNames == DOMAIN Prims \ Probes
Lo(f) == Prims[f][1]
Hi(f) == Prims[f][2]
Special(f) == Prims[f][3] = 1
\* not called with acceptable arguments: they end or block the host by design, reach outside of it, or print without end
Tabu == {"quit", "exec", "panic!", "debug", "debug-on-error", "debug-trace", "lisp-trace", "debug-on-entry", "add-debug-on-entry", "remove-debug-on-entry", "dump", "profile", "sleep", "proc-sleep", "read", "do", "restrict-environment"}
Called == AllNames \ Tabu
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Order == SeqOf(Called)
Mine == {Order[i] : i \in {j \in 1..Len(Order) : j % SHARDS = SHARD}}

\* ---- arguments: expressions that build a fresh value of every type
Ints == {"0", "1", "-1", "2", "3", "7", "255", "256", "-300", "1000", "9223372036854775807", "(- 0 9223372036854775807 1)", "4294967296"}
Floats == {"0.0", "1.5", "-2.25", "1000000.0", "nan", "+inf", "-inf", "3.0"}
Strings == {"\"\"", "\"a\"", "\"abc\"", "\"a b,c\"", "\"12\"", "\"x1.5\"", "\"%d ~A ~%\"", "\"~\"", "\"(1 2\"", "\"verif-no-such-file\"", "\" pad \"", "\"{\\\"a\\\": 1}\""}
Atoms == {"'a", "'b", "'zz", "'a:", "'car", "'quote", "#t", "#f"}
Lists == {"'()", "(list 1 2 3)", "(list 3 1 2)", "(list 'a 'b)", "(cons 1 2)", "(list (cons 'a 1) (cons 'b 2))", "(list (list 1 2) (list 3 4))", "(cons 1 (cons (list 2 3) 4))", "(list \"a\" \"b\")", "(list car cdr)",
          "(acons 'a 1 (acons 'b 2 '()))", "(pairlis '(x y) '(1 2))", "(list 'quote 1)", "(list '+ 1 2)", "(list 'car 5)", "(list '())", "(list '() '() '())", "(list {a: 1})", "'(1 . (2 . (3 . a)))", "(list 1.5 2)", "(list 1 \"a\" 'b)", "(interval 1 100)", "(cons '() '())"}
Objs == {"[]", "[1 2 3]", "[255]", "{}", "{a: 1}", "{a: 1 f: (lambda () a)}", "{p*: {a: 2} f: (lambda (x) x)}", "{p*: 5}", "(atomic 1)", "vchan", "vbuf", "vproc", "vport", "vshut", "vout", "venv", "(the-environment)", "vtop"}
Funs == {"(lambda (x) x)", "(lambda () 1)", "vrest", "(lambda (x y) (cons x y))", "(lambda (a b . c) c)", "(lambda (x) (car x))", "(lambda (a b) #t)", "(lambda (a b) (error \"e\"))", "car", "cons", "+", "<", "list", "if", "quote", "define", "vmac", "vfr", "str", "integer?", "json->lisp"}
Pool == Ints \cup Floats \cup Strings \cup Atoms \cup Lists \cup Objs \cup Funs
SmallPool == {"0", "-1", "2", "9223372036854775807", "1.5", "nan", "\"\"", "\"abc\"", "'a", "'a:", "#t", "'()", "(list 1 2 3)", "(cons 1 2)", "(list (cons 'a 1) (cons 'b 2))", "(acons 'a 1 (acons 'b 2 '()))", "[]", "[1 2 3]", "{a: 1 f: (lambda () a)}",
              "(lambda (x) x)", "vrest", "car", "if", "vmac", "(atomic 1)", "vchan", "vproc", "vport", "venv", "(list 'car 5)"}
\* what special forms are given: text they may or may not evaluate
Forms == {"zz", "5", "\"s\"", "()", "'()", "(zz)", "((zz 1))", "((zz))", "(zz 1)", "(1 2)", "((1 2))", "(zz . 1)", "((zz 1) . 2)", "((zz 1) (yy zz))", "((zz . 1))", "else", "(else 1)", "(else)", "(else => car)", "=>", "(1 =>)", "(1 => car)", "(1 => car 2)", "(1 => (lambda () 1))", "(#t)", "((1 2) 3)", "((1 . 2) 3)", "{a: 1}", "{a:}", "[1]", "'zz", "(quote)", "(quote 1 2)",
          "#t", "#f", "nil", "(vmac 1)", "(vmac)", "vmac", "car", "(lambda (x) x)", "(lambda)", "(lambda zz)", "(lambda (1) 1)", "(lambda (a . 1) 1)", "(zz yy)", "(zz yy . ww)", "(zz yy zz)", "(car 1)", "(error \"e\")", ",zz", ",@zz", "(1 ,@(list 1 2) . 3)", ",@5", "(1 ,@5)", "`(a ,,zz)", "a:", "(a: vfr)", "(a:! vfr 1)", "(begin)", "(define zz 1)", "(set! zz 1)", "(if)", "(let)", "(let 5 5)", "(cond)", "(case 1 5)", "vbuf", "vfr", "(unquote)", "(quasiquote)", "(list 1 2)", "(list vfr)", "1.5"}
\* what would take memory or time by design: huge lists and ranges
Huge == {"9223372036854775807", "4294967296", "1000000.0", "+inf", "(- 0 9223372036854775807 1)", "256", "1000"}
Reasonable(f, as) == IF f \in {"make-list", "interval", "make-channel"} THEN \A i \in 1..Len(as) : as[i] \notin Huge
                     \* a program may give builtin names other meanings in its own scope: not those the steps below are written with
                     ELSE IF f \in {"environment-define", "environment-assign!"} THEN \A i \in 1..Len(as) : as[i] # "'quote"
                     \* waiting for a partner that never comes is what channels do
                     ELSE IF f = "channel-read" THEN \A i \in 1..Len(as) : as[i] # "vbuf"
                     ELSE TRUE
\* names no form calls: a definition that calls itself without end is no matter of the builtins
NewNames == {"qq", "5", "\"s\"", "()", "(qq)", "((qq 1))", "((qq))", "(qq 1)", "(1 2)", "((1 2))", "(qq . 1)", "((qq 1) . 2)", "((qq 1) (yy zz))", "else", "(else 1)", "(#t)", "((1 2) 3)", "#t", "nil", "dump", "(dump 1)", "(qq yy)", "(qq yy . ww)", "a:", "(a: vfr)", "1.5"}
LetNames == (Forms \ {"zz", "vmac"}) \cup {"qq"}
Accepts(f, k) == Lo(f) <= k /\ (Hi(f) = 999 \/ k <= Hi(f))
\* append! takes 2 or more arguments of which it checks only the least number
Setup == << <<"(begin (define vchan (make-channel)) (close-channel vchan) (define vbuf (make-channel 50)) (channel-write vbuf 1) (channel-write vbuf 'a) (defmacro (vmac x) x) (define vfr {a: 1 b: 'x f: (lambda (x) x)}) (define (vrest . r) r) (define vproc (fork (lambda (p) 1))) (join vproc) (define venv (let ((ve 1)) (procedure-environment (lambda () ve)))) 1)", "1">>,
            <<"(begin (define vout (open-output-file \"verif-t-out\")) (write-string \"(a b) 2 {c: 3} \" vout) (close-port vout) (define vport (open-input-file \"verif-t-out\")) (define vshut (open-input-file \"verif-t-out\")) (close-port vshut) (set! vout (open-output-file \"verif-t-out2\")) (define vtop (make-top-level-environment '(zz) '(1))) 1)", "1">> >>
TearDown == << <<"(begin (close-port vport) (close-port vout) 1)", "*">> >>
\* ---- afterwards every builtin is in place and so is every constant
Simple == {f \in AllNames : ~Special(f)}
SimpleSeq == SeqOf(Simple)
Intact == << Call("list", SimpleSeq \o <<"nil", "(== pi 3.1415927)", "(> e 2.718)", "(nan? nan)", "(inf? +inf)">>), Paren([i \in 1..Len(SimpleSeq) |-> "<prim:" \o SimpleSeq[i] \o ">"] \o <<"()", "#t", "#t", "#t", "#t">>), "g" >>
Sane == << <<"(let loop ((i 0) (acc '())) (if (< i 3) (loop (+ i 1) (cons i acc)) (list acc (map (lambda (x) (* x x)) acc) `(a ,@acc) {k: acc})))", "((2 1 0) (4 1 0) (a 2 1 0) {k: (2 1 0)})">> >>

ProbeArgs(as) == [i \in 1..Len(as) |-> "(vprobe " \o Str(i) \o " " \o as[i] \o ")"]
Counting(k) == Paren([i \in 1..k |-> Str(i)])
CallStep(f, as) == <<Call(f, as), "*">>
\* evaluated once each, in order, whether or not the call is then an error
Order2(f, as) == << <<Call(f, ProbeArgs(as)), "*">>, <<"(vlog)", Counting(Len(as))>> >>
\* the k-th argument is an error
Stops(f, as, k) == << <<Call(f, [ProbeArgs(as) EXCEPT ![k] = "(begin (vprobe " \o Str(k) \o ") (error \"stop\"))"]), "!E">>, <<"(vlog)", Counting(k)>> >>
BadCount(f, as) == << <<Call(f, ProbeArgs(as)), "!E">>, <<"(vlog)", "()">> >>

Init == /\ steps = <<>> /\ p = "" /\ args = <<>> /\ n = 0
\* ---- every builtin that is a function, every argument tuple of the small pool
SmallSteps1(f, a) == Setup \o (IF Accepts(f, 1) THEN (IF Reasonable(f, <<a>>) THEN Order2(f, <<a>>) ELSE <<>>) ELSE BadCount(f, <<a>>)) \o TearDown
SmallSteps2(f, a) == LET bs == SelectSeq(SeqOf(SmallPool), LAMBDA b : Reasonable(f, <<a, b>>)) IN Setup \o [i \in 1..Len(bs) |-> CallStep(f, <<a, bs[i]>>)] \o TearDown
Small1 == MODE = "small" /\ args = <<>> /\ \E f \in {g \in Mine : ~Special(g)} : \E a \in Pool : p' = f /\ n' = 0 /\ args' = <<a>> /\ steps' = SmallSteps1(f, a)
Small2 == MODE = "small" /\ args = <<>> /\ \E f \in {g \in Mine : Accepts(g, 2) /\ ~Special(g)} : \E a \in SmallPool : p' = f /\ n' = 2 /\ args' = <<a>> /\ steps' = SmallSteps2(f, a)
\* ---- every builtin with every number of arguments it does not take (and special forms too: nothing is evaluated)
BadCounts(f) == SelectSeq(<<0, 1, 2, 3, 4, 5, 6>>, LAMBDA k : ~Accepts(f, k))
RECURSIVE AllBad(_, _)
AllBad(f, ks) == IF ks = <<>> THEN <<>> ELSE BadCount(f, [j \in 1..ks[1] |-> Str(j)]) \o AllBad(f, Tail(ks))
Arity == MODE = "arity" /\ args = <<>> /\ \E f \in AllNames : p' = f /\ args' = <<"x">> /\ n' = 0 /\ steps' = AllBad(f, BadCounts(f)) \o <<Intact>>
\* ---- random calls
RArgs(f) == LET hi == IF Hi(f) = 999 THEN Lo(f) + 3 ELSE Hi(f) IN [i \in 1..RE(Lo(f)..hi) |-> RE(Pool)]
RForms(f) == LET hi == IF Hi(f) = 999 THEN Lo(f) + 3 ELSE Hi(f) IN [i \in 1..RE(Lo(f)..hi) |-> IF i = 1 /\ f \in {"define", "defmacro", "set!", "named-lambda"} THEN RE(NewNames) ELSE IF i = 1 /\ f \in {"let", "let*", "letrec"} THEN RE(LetNames) ELSE RE(Forms)]
Sim == MODE = "sim" /\ UNCHANGED <<p, args>>
Begin == Sim /\ n = 0 /\ n' = 1 /\ steps' = steps \o Setup
More(s) == n > 0 /\ n < 40 /\ n' = n + 1 /\ steps' = steps \o s
Fun(f) == ~Special(f) /\ f \in Called
RFun(any) == RE(Called \cap Simple)
RForm(any) == RE({f \in Called : Special(f)})
RandomCall == Sim /\ \E f \in {RFun(0)} : \E as \in {RArgs(f)} : Reasonable(f, as) /\ More(IF RE(1..2) = 1 THEN Order2(f, as) ELSE <<CallStep(f, as)>>)
RandomStop == Sim /\ \E f \in {RFun(0)} : \E as \in {RArgs(f)} : Len(as) > 0 /\ More(Stops(f, as, RE(1..Len(as))))
RandomForm == Sim /\ \E f \in {RForm(0)} : \E as \in {RForms(f)} : More(<<CallStep(f, as)>>)
\* a call inside a call
Nested == Sim /\ \E f \in {RFun(0)}, g \in {RFun(0)}, h \in {RFun(0)} : \E as \in {RArgs(f)}, bs \in {RArgs(g)}, cs \in {RArgs(h)} :
   Len(as) > 0 /\ Len(bs) > 0 /\ Reasonable(f, as) /\ Reasonable(g, bs) /\ Reasonable(h, cs) /\ {f, g} \cap {"make-list", "interval", "channel-read", "channel-write", "join"} = {}
   /\ More(<<CallStep(f, [as EXCEPT ![RE(1..Len(as))] = Call(g, [bs EXCEPT ![1] = Call(h, cs)])])>>)
RandomBad == Sim /\ \E f \in {RE(AllNames \ {"dump"})}, k \in {RE(0..7)} : ~Accepts(f, k) /\ More(BadCount(f, [j \in 1..k |-> Str(j)]))
\* what is not a function at all
NotAFunction == Sim /\ \E a \in {RE(Pool \ Funs)} : \E as \in {[i \in 1..RE(0..3) |-> RE(Pool)]} : More(<<CallStep(a, as)>>)
Finish == Sim /\ n = 40 /\ n' = 0 /\ steps' = steps \o TearDown \o Sane \o <<Intact>>
\* three arguments, over a pool in which there are sensible ones
Pool3 == {"0", "-1", "1", "2", "9223372036854775807", "\"abc\"", "'a", "a:", "'()", "(list 1 2 3)", "(cons 1 2)", "(list (cons 'a 1) (cons 'b 2))", "[1 2 3]", "{a: 1 f: (lambda () a)}", "car", "+", "(lambda (x y) (cons x y))", "venv", "(atomic 1)", "#f"}
SmallSteps3(f, a, b) == LET cs == SelectSeq(SeqOf(Pool3), LAMBDA c : Reasonable(f, <<a, b, c>>)) IN Setup \o [i \in 1..Len(cs) |-> CallStep(f, <<a, b, cs[i]>>)] \o TearDown
Small3 == MODE = "small" /\ args = <<>> /\ \E f \in {g \in Mine : Accepts(g, 3) /\ ~Special(g)} : \E a \in Pool3, b \in Pool3 : p' = f /\ n' = 3 /\ args' = <<a, b>> /\ steps' = SmallSteps3(f, a, b)
\* format: control strings of up to three parts
FParts == <<"~A", "~S", "~D", "~B", "~O", "~X", "~%", "~~", "~", "~5A", "~-3S", "~#A", "~a", "~5", "~0X", "~99D", "x", "~8", "~q", "~\n  ">>
Formats == MODE = "small" /\ args = <<>> /\ SHARD = 0 /\ \E i \in 1..Len(FParts), j \in 1..Len(FParts) : \E as \in {"", " 1", " 'a \"s\"", " -5 '(1 2) 1.5", " 3 255"} :
   p' = "format" /\ n' = 4 /\ args' = <<ToString(i), ToString(j), as>> /\ steps' = << <<"(format #f \"" \o FParts[i] \o FParts[j] \o "\"" \o as \o ")", "*">>, <<"(format #f \"a" \o FParts[i] \o "b" \o FParts[j] \o "\"" \o as \o ")", "*">> >>
Next == Small3 \/ Formats \/ Small1 \/ Small2 \/ Arity \/ Begin \/ RandomCall \/ RandomStop \/ RandomForm \/ Nested \/ RandomBad \/ NotAFunction \/ Finish
Spec == Init /\ [][Next]_vars
View == <<p, args, n>>
Bounded == TRUE
BoundedNext == TRUE
Shape == Cardinality(AllNames) >= 300 /\ \A f \in AllNames : Lo(f) <= Hi(f)
EmitEdge == IF steps' = <<>> THEN TRUE ELSE EmitSteps("e", steps')
EmitPath == IF n = 40 /\ n' = 0 THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
