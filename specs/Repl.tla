--------------------------------- MODULE Repl ---------------------------------
(* A session with the golisp command: the files it is given are loaded, then    *)
(* each line typed at the prompt is evaluated in one scope. (debug), functions  *)
(* marked to be debugged on entry, single stepping and, when asked for, errors   *)
(* stop an evaluation where it is and open a debugger there, which has a prompt  *)
(* of its own, sees and changes the variables of that place, and from which the  *)
(* evaluation goes on.                                                           *)
EXTENDS Emit, Integers, FiniteSets
CONSTANTS DEPTH, RANDOM, MAXSTOP
VARIABLES g,       \* the variables of the session: name -> value, None: unbound
          marked,  \* the functions debugged on entry
          onerr,   \* whether errors open the debugger
          stops,   \* the evaluations that are stopped, the last one first
          steps    \* <<line, what it answers, the prompt it ends at>>; before them the files
vars == <<g, marked, onerr, stops, steps>>
RE(S) == RandomElement(S)
None == -1
Names == {"a", "b", "c"}
Fns == {"fa", "fb"}
\* ---- an evaluation: what is still to do, the local variable x (None: there is none), what it has yielded so far, and the last value of a stop
\*   (base: the x of the scope it began in; own: x is its own)
\*   x v: bind x; stop: a call of (debug); entry f: a call of the function f; ev: an evaluation begins; up: an evaluation begins in the scope outside
\*   reg: yield what the stop gave; put t: yield t; mulx m: yield m * x; incx; adda k; name n: yield the value of n; out: leave the scope of x; end: the answer is the sequence of what was yielded, or (one) the one thing
New(ops, base) == [todo |-> ops, x |-> base, base |-> base, own |-> FALSE, acc |-> <<>>, reg |-> "()", at |-> "", step |-> FALSE, up |-> FALSE]
Show(v) == IF v = None THEN "()" ELSE Str(v)
Look(gg, x, n) == IF n = "x" /\ x # None THEN Show(x) ELSE IF n \in Names THEN Show(gg[n]) ELSE "()"
\* <<"stopped", evaluation, g>> or <<"done", answer, g>>
RECURSIVE Run(_, _, _)
Run(c, gg, mk) ==
  IF c.todo = <<>> THEN <<"done", Paren(c.acc), gg>> ELSE
  LET o == c.todo[1] r == [c EXCEPT !.todo = Tail(@)] IN
  CASE o[1] = "x" -> Run([r EXCEPT !.x = o[2], !.own = TRUE], gg, mk)
    [] o[1] = "out" -> Run([r EXCEPT !.x = r.base, !.own = FALSE], gg, mk)
    [] o[1] = "stop" -> <<"stopped", [r EXCEPT !.reg = "()", !.at = "stop", !.step = FALSE, !.up = FALSE], gg>>
    [] o[1] = "entry" -> IF o[2] \in mk THEN <<"stopped", [r EXCEPT !.at = "entry", !.step = FALSE, !.up = FALSE], gg>> ELSE Run(r, gg, mk)
    [] o[1] = "ev" -> IF c.step THEN <<"stopped", [r EXCEPT !.at = "ev", !.step = FALSE], gg>> ELSE Run(r, gg, mk)
    [] o[1] = "up" -> IF c.up THEN <<"stopped", [r EXCEPT !.at = "ev", !.up = FALSE], gg>> ELSE Run(r, gg, mk)
    [] o[1] = "reg" -> Run([r EXCEPT !.acc = Append(@, c.reg)], gg, mk)
    [] o[1] = "put" -> Run([r EXCEPT !.acc = Append(@, o[2])], gg, mk)
    [] o[1] = "mulx" -> Run([r EXCEPT !.acc = Append(@, Str(o[2] * c.x))], gg, mk)
    [] o[1] = "incx" -> Run([r EXCEPT !.x = @ + 1], gg, mk)
    [] o[1] = "adda" -> Run(r, [gg EXCEPT !["a"] = @ + o[2]], mk)
    [] o[1] = "seta" -> Run(r, [gg EXCEPT !["a"] = o[2]], mk)
    [] o[1] = "loop" -> IF c.x < 3 THEN Run([r EXCEPT !.todo = << <<"stop">>, <<"ev">>, <<"incx">>, o >> \o r.todo], gg, mk) ELSE Run(r, gg, mk)
    [] o[1] = "yesno" -> Run([r EXCEPT !.acc = <<IF c.reg = "()" THEN "no" ELSE "yes">>], gg, mk)
    [] o[1] = "any" -> Run([r EXCEPT !.acc = <<IF c.reg = "()" THEN "*" ELSE c.reg>>], gg, mk)
    [] o[1] = "none" -> <<"done", "", gg>>
    [] o[1] = "name" -> Run([r EXCEPT !.acc = Append(@, Look(gg, c.x, o[2]))], gg, mk)
    [] OTHER -> <<"done", c.acc[1], gg>>     \* one
\* ---- lines that are evaluations with stops, k: a number
Fa(k) == << <<"entry", "fa">>, <<"adda", k>>, <<"put", Str(k * 2)>> >>        \* (define (fa x) (set! a (+ a x)) (* x 2))
Fb(k) == << <<"entry", "fb">>, <<"put", Str(k + 100)>> >>                    \* (define (fb x) (+ x 100))
Line(n, k) ==
  CASE n = 1 -> <<"(list " \o Str(k) \o " (debug) 4)", << <<"put", Str(k)>>, <<"stop">>, <<"reg">>, <<"ev">>, <<"put", "4">> >> >>
    [] n = 2 -> <<"(let ((x " \o Str(k) \o ")) (debug) (set! x (+ x 1)) (list x a b))", << <<"x", k>>, <<"stop">>, <<"ev">>, <<"incx">>, <<"mulx", 1>>, <<"name", "a">>, <<"name", "b">> >> >>
    [] n = 3 -> <<"(map (lambda (x) (debug) (* x " \o Str(k) \o ")) (list 1 2))", << <<"x", 1>>, <<"stop">>, <<"ev">>, <<"mulx", k>>, <<"x", 2>>, <<"stop">>, <<"ev">>, <<"mulx", k>> >> >>
    [] n = 4 -> <<"(fa " \o Str(k) \o ")", Fa(k) \o << <<"one">> >> >>
    [] n = 5 -> <<"(list (fa " \o Str(k) \o ") (fb 2) (fa 1) a)", Fa(k) \o Fb(2) \o Fa(1) \o << <<"name", "a">> >> >>
    [] n = 6 -> <<"(list (fs " \o Str(k) \o ") a)", << <<"x", k>>, <<"stop">>, <<"mulx", 3>>, <<"out">>, <<"up">>, <<"name", "a">> >> >>      \* (define (fs x) (debug) (* x 3))
    [] n = 7 -> <<"(let loop ((x " \o Str(k % 3) \o ")) (if (< x 3) (begin (debug) (loop (+ x 1))) (list x a)))", << <<"x", k % 3>>, <<"loop">>, <<"mulx", 1>>, <<"name", "a">> >> >>
    [] n = 8 -> <<"(begin (debug) (set! a " \o Str(k) \o ") (list a b))", << <<"stop">>, <<"ev">>, <<"seta", k>>, <<"name", "a">>, <<"name", "b">> >> >>
    [] n = 9 -> <<"(if (debug) 'yes 'no)", << <<"stop">>, <<"yesno">>, <<"one">> >> >>
    [] n = 10 -> <<"(list (let ((x " \o Str(k) \o ")) (debug) (* x 2)) (fb 1))", << <<"x", k>>, <<"stop">>, <<"ev">>, <<"mulx", 2>>, <<"out">> >> \o Fb(1) >>
    [] OTHER -> <<"((lambda (x) (list (debug) x (debug))) " \o Str(k) \o ")", << <<"x", k>>, <<"stop">>, <<"reg">>, <<"ev">>, <<"mulx", 1>>, <<"stop">>, <<"reg">> >> >>
NLines == 11
ErrLine == << <<"stop">>, <<"any">>, <<"one">> >>
PostLine == << <<"stop">>, <<"none">> >>
Prompt(ss) == IF ss = <<>> THEN "> " ELSE "D> "
\* start or go on with an evaluation; rest: the evaluations stopped below it. <<answer, g, stops>>
Go(c, gg, mk, rest) == LET r == Run(c, gg, mk) IN IF r[1] = "done" THEN <<r[2], r[3], rest>> ELSE <<"", r[3], <<r[2]>> \o rest>>
Take(src, r) == g' = r[2] /\ stops' = r[3] /\ steps' = Append(steps, <<src, r[1], Prompt(r[3])>>)
Say(src, ans) == UNCHANGED <<g, stops>> /\ steps' = Append(steps, <<src, ans, Prompt(stops)>>)
Top == stops[1]
InDebugger == stops # <<>>
Local == IF InDebugger THEN Top.x ELSE None
\* ---- files: <<text, whether it is loaded without an error, "file">>; what they leave in c
Files == << <<>>, << <<"(define c 5)", "ok", "file">> >>, << <<"(define c 5) (vnone) (define c 6)", "err", "file">>, <<"(set! c (+ c 1))", "ok", "file">> >>,
            << <<"", "none", "file">>, <<"; a comment\n(define c 7)\n(format #t \"==> 5~%\") (define d c", "err", "file">>, <<"", "ok", "file">> >>, << <<"(define c 1)\n(define c (+ c 1))", "ok", "file">>, <<"(car 1 2)", "err", "file">>, <<"(define c (* c 10))", "ok", "file">> >> >>
Left == <<None, 5, 6, 7, 20>>
Prelude == << <<"(define a 1)", "1", "> ">>, <<"(define (fa x) (set! a (+ a x)) (* x 2))", "*", "> ">>, <<"(define (fb x) (+ x 100))", "*", "> ">>, <<"(define (fs x) (debug) (* x 3))", "*", "> ">> >>
Init == \E f \in (IF RANDOM THEN 1..Len(Files) ELSE {3}) :
   /\ g = [n \in Names |-> CASE n = "a" -> 1 [] n = "c" -> Left[f] [] OTHER -> None] /\ marked = {} /\ onerr = FALSE /\ stops = <<>> /\ steps = Files[f] \o Prelude
Pick(S) == IF RANDOM THEN {RE(S)} ELSE S
Ks == IF RANDOM THEN 1..9 ELSE {2}
\* ---- what one types
Plain == UNCHANGED <<marked, onerr>> /\ \E n \in Pick(1..8), k \in Pick(Ks) :
   CASE n = 1 -> Say("(list x a b c)", Paren(<<Look(g, Local, "x"), Look(g, Local, "a"), Look(g, Local, "b"), Look(g, Local, "c")>>))
     [] n = 2 -> Say("a", Show(g["a"]))
     [] n = 3 -> Say("  (+ a " \o Str(k) \o ")  ; and more", Str(g["a"] + k))
     [] n = 4 -> IF Local # None THEN Top.own /\ stops' = [stops EXCEPT ![1].x = k] /\ UNCHANGED g /\ steps' = Append(steps, <<"(set! x " \o Str(k) \o ")", Str(k), "D> ">>)
                 ELSE g' = [g EXCEPT !["b"] = k] /\ UNCHANGED stops /\ steps' = Append(steps, <<"(define b " \o Str(k) \o ")", Str(k), Prompt(stops)>>)
     [] n = 5 -> g' = [g EXCEPT !["a"] = k] /\ UNCHANGED stops /\ steps' = Append(steps, <<"(set! a " \o Str(k) \o ")", Str(k), Prompt(stops)>>)
     [] n = 6 -> Say(IF RANDOM THEN RE({"", "(list \"a b\" 'c 1.5)", "\"s\"", "'(1 . 2)", "(begin (set! a (+ a 1)) (set! a (- a 1)) (list a))"}) ELSE "", "*")
     [] n = 7 -> Say("'(a . 1)", "*")
     [] n = 8 -> Say("(let ((a 50)) (set! a (+ a 1)) a)", "51")
\* the same line again
Again == RANDOM /\ UNCHANGED <<marked, onerr>> /\ LET p == steps[Len(steps)] IN p[1] = "a" /\ Say("a", Show(g["a"]))
Twice == RANDOM /\ UNCHANGED <<marked, onerr>> /\ \E n \in {RE(2..3)} : g' = [g EXCEPT !["a"] = @ + n] /\ UNCHANGED stops /\ steps' = steps \o [i \in 1..n |-> <<"(set! a (+ a 1))", Str(g["a"] + i), Prompt(stops)>>]
Wrong == UNCHANGED <<marked, onerr>> /\ \E n \in Pick(1..4) :
   CASE n = 1 -> Say("(car", "!E")
     [] n = 2 -> Say(")", "*")
     [] n = 3 -> IF onerr THEN (Len(stops) < MAXSTOP /\ Take("(error \"boo\")", Go(New(ErrLine, Local), g, marked, stops))) ELSE Say("(begin (error \"boo\") (set! a 66))", "!E")
     [] n = 4 -> IF onerr /\ ~InDebugger THEN g' = g /\ (\E c \in {Go(New(PostLine, None), g, marked, <<>>)} : stops' = c[3] /\ steps' = Append(steps, <<"(vnone 1)", "!E", "D> ">>)) ELSE Say("(vnone 1)", "!E")
Stopping == Len(stops) < MAXSTOP /\ UNCHANGED <<marked, onerr>> /\ \E n \in Pick(1..NLines), k \in Pick(Ks) : LET l == Line(n, k) IN Take(l[1], Go(New(l[2], Local), g, marked, stops))
MarkedNow(m) == Str(Cardinality(m))
Mark == UNCHANGED <<g, onerr, stops>> /\ \E n \in Pick(1..5), f \in Pick(Fns) :
   CASE n = 1 -> marked' = marked \cup {f} /\ steps' = Append(steps, <<"(length (add-debug-on-entry " \o f \o "))", MarkedNow(marked'), Prompt(stops)>>)
     [] n = 2 -> marked' = marked \ {f} /\ steps' = Append(steps, <<"(length (remove-debug-on-entry " \o f \o "))", MarkedNow(marked'), Prompt(stops)>>)
     [] n = 3 -> InDebugger /\ marked' = marked \cup {f} /\ steps' = Append(steps, <<":(+ " \o f, "", "D> ">>)
     [] n = 4 -> InDebugger /\ marked' = marked \ {f} /\ steps' = Append(steps, <<":(- " \o f, "", "D> ">>)
     [] n = 5 -> UNCHANGED marked /\ steps' = Append(steps, <<"(length (debug-on-entry))", MarkedNow(marked), Prompt(stops)>>)
OnErr == UNCHANGED <<g, marked, stops>> /\ \E b \in Pick(BOOLEAN), n \in Pick(1..2) :
   IF n = 1 \/ ~InDebugger THEN onerr' = b /\ steps' = Append(steps, <<"(debug-on-error " \o Bool(b) \o ")", Bool(b), Prompt(stops)>>)
   ELSE onerr' = b /\ steps' = Append(steps, <<IF b THEN ":e on" ELSE ":e off", "", "D> ">>)
\* commands that look, or do nothing
Idle == <<":b", ":d", ":f 0", ":f 99", ":f q", ":f", ":?", ":foo", ":", ":e", ":e maybe", ":(", ":(+ vnone", ":(- vnone", ":(+ car", ":(+", ":(-", ":t on", ":t off", ":t", "(lisp-trace #t)", "(lisp-trace #f)", "(debug-on-error)">>
IdleCmd == UNCHANGED <<marked, onerr>> /\ \E i \in Pick(IF RANDOM THEN 1..Len(Idle) ELSE {1, 9, 11, 16}) : (InDebugger \/ i >= 21) /\ Say(Idle[i], IF i < 21 THEN "" ELSE "*")
Continue == InDebugger /\ UNCHANGED <<marked, onerr>> /\ Take(":c", Go(Top, g, marked, Tail(stops)))
Stopped(kind) == InDebugger /\ Top.at = kind
Return == Stopped("stop") /\ UNCHANGED <<marked, onerr>> /\ \E n \in Pick(1..3), k \in Pick(Ks) :
   IF n = 2 /\ Local # None THEN Take(":r x", Go([Top EXCEPT !.reg = Look(g, Local, "x")], g, marked, Tail(stops)))
   ELSE IF n = 3 THEN Take(":r (list a " \o Str(k) \o ")", Go([Top EXCEPT !.reg = Paren(<<Show(g["a"]), Str(k)>>)], g, marked, Tail(stops)))
   ELSE Take(":r " \o Str(k), Go([Top EXCEPT !.reg = Str(k)], g, marked, Tail(stops)))
\* the value cannot be had: it stays where it is
ReturnWrong == Stopped("stop") /\ ~onerr /\ UNCHANGED <<marked, onerr>> /\ Say(":r (vnone 1)", "!E")
FirstEv(c) == c.todo # <<>> /\ (c.todo[1][1] = "ev" \/ (c.todo[1][1] = "reg" /\ Len(c.todo) > 1 /\ c.todo[2][1] = "ev"))
Step == Stopped("stop") /\ FirstEv(Top) /\ UNCHANGED <<marked, onerr>> /\ Take(":s", Go([Top EXCEPT !.step = TRUE], g, marked, Tail(stops)))
HasUp(c) == \E i \in 1..Len(c.todo) : c.todo[i][1] = "up"
Up == Stopped("stop") /\ HasUp(Top) /\ UNCHANGED <<marked, onerr>> /\ Take(":u", Go([Top EXCEPT !.up = TRUE], g, marked, Tail(stops)))
Next == Plain \/ Again \/ Twice \/ Wrong \/ Stopping \/ Mark \/ OnErr \/ IdleCmd \/ Continue \/ Return \/ ReturnWrong \/ Step \/ Up
Spec == Init /\ [][Next]_vars
\* ---- the design
\* every evaluation that is stopped can be gone on with, and ends
RECURSIVE Ends(_, _, _, _)
Ends(c, gg, mk, n) == n > 0 /\ LET r == Run(c, gg, mk) IN r[1] = "done" \/ Ends(r[2], r[3], mk, n - 1)
Ending == \A i \in 1..Len(stops) : Ends(stops[i], g, marked, 8)
\* stepping and stopping do not change what is computed, only :r does
RECURSIVE Final(_, _, _)
Final(c, gg, mk) == LET r == Run(c, gg, mk) IN IF r[1] = "done" THEN <<r[2], r[3]>> ELSE Final(r[2], r[3], mk)
Harmless == \A i \in 1..Len(stops) : \A s \in BOOLEAN, m \in SUBSET Fns : (s => FirstEv(stops[i])) => Final([stops[i] EXCEPT !.step = s], g, m) = Final(stops[i], g, {})
TypeOK == Len(stops) <= MAXSTOP /\ marked \subseteq Fns
\* ---- every session ends with all that is stopped gone on with, a look at the variables, and quitting
RECURSIVE Settle(_, _, _)
Settle(ss, gg, mk) == IF ss = <<>> THEN << <<"(list a b c)", Paren(<<Show(gg["a"]), Show(gg["b"]), Show(gg["c"])>>), "> ">> >>
                      ELSE LET r == CHOOSE y \in {Go(ss[1], gg, mk, Tail(ss))} : TRUE IN << <<":c", r[1], Prompt(r[3])>> >> \o Settle(r[3], r[2], mk)
Ended == \E ss \in {stops'}, gg \in {g'}, mk \in {marked'}, st \in {steps'} : EmitSteps("e", st \o Settle(ss, gg, mk))
View == <<g, marked, onerr, stops, steps[1]>>
Bounded == TRUE
BoundedNext == g'["a"] <= 3 /\ g'["b"] <= 2
EmitEdge == Ended
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN Ended ELSE TRUE
=============================================================================
