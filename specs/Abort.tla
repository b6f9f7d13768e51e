-------------------------------- MODULE Abort --------------------------------
(* Every kind of thing a program can change, every builtin that changes one,    *)
(* and an error at every place of the call: the arguments before the error have *)
(* been evaluated, in order, nothing after it, the call has changed nothing,    *)
(* and what earlier calls changed stays.                                        *)
EXTENDS Emit, Integers
CONSTANTS DEPTH, RANDOM
VARIABLES st, steps
vars == <<st, steps>>
RE(S) == RandomElement(S)
PickOf(S) == IF RANDOM THEN {RE(S)} ELSE S

Vals == {"7", "8", "'q"}
Nums == {"7", "8"}
Setup == <<"(begin (define p (cons 1 2)) (define l (list 1 2 3)) (define la (list 1)) (define m (acons 'a 1 (acons 'b 2 '()))) (define fr {a: 1 b: 2}) (define bs [1 2 3]) (define at (atomic 5)) (define ch (make-channel 3)) (define sg (str \"a\" \"b\")) (define x 1) (define ee (make-top-level-environment '(v) '(1))) (define (ident a) a) (define (two a b) b) (vclear) (define out (open-output-file (vfn 1))) 1)", "1">>
S0 == [p |-> <<"1", "2">>, l |-> <<"1", "2", "3">>, la |-> <<"1">>, m |-> <<"1", "2">>, fa |-> "1", fb |-> "2", bs |-> <<"1", "2", "3">>, at |-> 5, ch |-> <<>>, open |-> TRUE, sg |-> "ab", x |-> "1", v |-> "1", w |-> "-", out |-> <<>>]
\* what a value prints as
P(v) == IF v = "'q" THEN "q" ELSE v
Q(s) == [i \in 1..Len(s) |-> P(s[i])]
Pr(s) == <<"(list (car p) (cdr p) l la (cdr (assoc 'a m)) (cdr (assoc 'b m)) (a: fr) (if (has-slot? fr b:) (b: fr) '-) (bytearray->list bs) (atomic-load at) sg x (eval 'v ee) (if (environment-bound? ee 'w) (eval 'w ee) '-))",
           Paren(<<P(s.p[1]), P(s.p[2]), Paren(Q(s.l)), Paren(Q(s.la)), P(s.m[1]), P(s.m[2]), P(s.fa), P(s.fb), Paren(s.bs), Str(s.at), "\"" \o s.sg \o "\"", P(s.x), P(s.v), P(s.w)>>)>>
N(v) == IF v = "7" THEN 7 ELSE 8

\* name, argument texts, the state afterwards, its value ("*": not said here), the first argument that is evaluated, bad arguments <<position, text>>
O(f, a, s, v, from, bad) == [f |-> f, a |-> a, s |-> s, v |-> v, from |-> from, bad |-> bad]
Ops(s) ==
  {O("set-car!", <<"p", v>>, [s EXCEPT !.p[1] = v], "?V", 1, {<<1, "5">>, <<1, "\"s\"">>, <<1, "bs">>, <<1, "car">>}) : v \in Vals}
  \cup {O("set-cdr!", <<"p", v>>, [s EXCEPT !.p[2] = v], "?V", 1, {<<1, "5">>, <<1, "\"s\"">>, <<1, "fr">>}) : v \in Vals}
  \cup {O("set-nth!", <<"l", Str(i), v>>, [s EXCEPT !.l[i] = v], "?V", 1, {<<1, "5">>, <<2, "'a">>, <<2, "\"1\"">>}) : v \in Vals, i \in 1..3}
  \cup {O("append!", <<"la", "(list " \o v \o ")">>, [s EXCEPT !.la = Append(@, v)], "?V", 1, {}) : v \in Vals}
  \cup {O("acons", <<"'" \o k, v, "m">>, [s EXCEPT !.m[IF k = "a" THEN 1 ELSE 2] = v], "?V", 1, {<<3, "5">>}) : v \in Vals, k \in {"a", "b"}}
  \cup {O("set-slot!", <<"fr", "a:", v>>, [s EXCEPT !.fa = v], "?V", 1, {<<1, "5">>, <<1, "m">>, <<2, "'a">>, <<2, "5">>, <<2, "\"a:\"">>}) : v \in Vals}
  \cup {O("set-slot!", <<"fr", "b:", v>>, [s EXCEPT !.fb = v], "?V", 1, {<<1, "p">>}) : v \in Vals}
  \cup (IF s.fb = "-" THEN {} ELSE {O("remove-slot!", <<"fr", "b:">>, [s EXCEPT !.fb = "-"], "?V", 1, {<<1, "5">>, <<2, "5">>})})
  \cup {O("replace-byte!", <<"bs", Str(i - 1), v>>, [s EXCEPT !.bs[i] = v], "?V", 1, {<<1, "l">>, <<2, Str(Len(s.bs) + 6)>>, <<2, Str(Len(s.bs))>>, <<2, "-1">>, <<2, "'a">>, <<3, "256">>, <<3, "-1">>, <<3, "'q">>, <<3, "\"7\"">>}) : v \in Nums, i \in 1..3}
  \cup {O("append-bytes!", <<"bs", v>>, [s EXCEPT !.bs = Append(@, v)], "?V", 1, {<<1, "l">>, <<2, "256">>, <<2, "(list 1 'a)">>, <<2, "(list 1 300)">>, <<2, "\"x\"">>}) : v \in Nums}
  \cup {O("append-bytes!", <<"bs", "(list 1 " \o v \o ")">>, [s EXCEPT !.bs = @ \o <<"1", v>>], "?V", 1, {<<2, "'(1 2 256)">>, <<2, "'(1 a)">>}) : v \in Nums}
  \cup {O("atomic-store!", <<"at", v>>, [s EXCEPT !.at = N(v)], "?V", 1, {<<1, "5">>, <<2, "'a">>, <<2, "\"1\"">>}) : v \in Nums}
  \cup {O("atomic-add!", <<"at", v>>, [s EXCEPT !.at = @ + N(v)], Str(s.at + N(v)), 1, {<<1, "x">>, <<2, "'a">>, <<2, "1.5">>}) : v \in Nums}
  \cup {O("atomic-swap!", <<"at", v>>, [s EXCEPT !.at = N(v)], Str(s.at), 1, {<<1, "l">>, <<2, "'()">>}) : v \in Nums}
  \cup {O("atomic-compare-and-swap!", <<"at", o, v>>, IF o = Str(s.at) THEN [s EXCEPT !.at = N(v)] ELSE s, IF o = Str(s.at) THEN "#t" ELSE "#f", 1, {<<1, "5">>, <<2, "'a">>, <<3, "'a">>}) : v \in Nums, o \in {Str(s.at), "7"}}
  \cup (IF ~s.open THEN {} ELSE
        (IF Len(s.ch) = 3 THEN {} ELSE {O(f, <<"ch", v>>, [s EXCEPT !.ch = Append(@, v)], "?V", 1, {<<1, "5">>, <<1, "p">>}) : v \in Vals, f \in {"channel-write", "channel-try-write"}})
        \cup (IF s.ch = <<>> THEN {} ELSE {O(f, <<"ch">>, [s EXCEPT !.ch = Tail(@)], "?V", 1, {<<1, "5">>}) : f \in {"channel-read", "channel-try-read"}})
        \cup {O("close-channel", <<"ch">>, [s EXCEPT !.open = FALSE], "?V", 1, {<<1, "5">>})})
  \cup {O(f, <<"sg">>, [s EXCEPT !.sg = IF f = "string-upcase!" THEN "AB" ELSE "Ab"], "?V", 1, {<<1, "5">>, <<1, "'a">>}) : f \in {"string-upcase!", "string-capitalize!"}}
  \cup {O("string-downcase!", <<"sg">>, [s EXCEPT !.sg = "ab"], "?V", 1, {<<1, "5">>})}
  \cup {O("set!", <<"x", v>>, [s EXCEPT !.x = v], "?V", 2, {<<1, "nowhere">>}) : v \in Vals}
  \cup {O("define", <<"x", v>>, [s EXCEPT !.x = v], "?V", 2, {<<1, "5">>, <<1, "(5)">>}) : v \in Vals}
  \cup {O("environment-assign!", <<"ee", "'v", v>>, [s EXCEPT !.v = v], "?V", 1, {<<1, "5">>, <<2, "5">>, <<2, "'nowhere">>}) : v \in Vals}
  \cup {O("environment-define", <<"ee", "'w", v>>, [s EXCEPT !.w = v], "?V", 1, {<<1, "5">>, <<2, "5">>, <<2, "\"w\"">>}) : v \in Vals}
  \cup {O("write-string", <<"\" " \o t \o " \"", "out">>, [s EXCEPT !.out = Append(@, t)], "?V", 1, {<<1, "5">>, <<2, "p">>, <<2, "\"out\"">>}) : t \in {"u", "vv"}}
  \cup {O("write", <<"(list " \o v \o ")", "out">>, [s EXCEPT !.out = Append(@, Paren(<<P(v)>>))], "?V", 1, {<<2, "5">>}) : v \in Vals}

\* the log of the arguments from..k
Log(from, k) == Paren([i \in 1..(IF k < from THEN 0 ELSE k - from + 1) |-> Str(from + i - 1)])
Probed(o, i) == IF i < o.from THEN o.a[i] ELSE "(vprobe " \o Str(i) \o " " \o o.a[i] \o ")"
Whole(o) == Call(o.f, [i \in 1..Len(o.a) |-> Probed(o, i)])
Broken(o, k) == Call(o.f, [i \in 1..Len(o.a) |-> IF i = k THEN "(begin (vprobe " \o Str(k) \o ") (error \"m" \o Str(k) \o "\"))" ELSE Probed(o, i)])
With(o, k, t) == Call(o.f, [i \in 1..Len(o.a) |-> IF i = k THEN (IF i < o.from THEN t ELSE "(vprobe " \o Str(k) \o " " \o t \o ")") ELSE Probed(o, i)])
\* all of them where the number of arguments is fixed
Fixed(o) == o.f \notin {"append-bytes!", "define", "write-string", "write", "acons"}
\* around a call: the text, and whether a value of it is returned
Around == <<"|", "(let ((a1 1)) |)", "((lambda (a1) (ident |)) 2)", "(two 1 |)", "(if #t | 5)", "(cond (#f 1) (else |))", "(begin 1 |)", "(let loop ((i 0)) (if (< i 1) (loop (+ i 1)) |))", "(and 1 |)", "(eval '|)", "(car (list |))", "(do ((i 0 (+ i 1))) ((> i 0) |))", "(apply ident (list |))", "(car (map (lambda (a1) |) '(1)))", "(-> | (two 5) ident)", "(car `(,|))", "(when #t |)", "(case 1 ((1) |))"
            >>
Fill(t, c) == LET i == CHOOSE i \in 1..Len(t) : SubSeq(t, i, i) = "|" IN SubSeq(t, 1, i - 1) \o c \o SubSeq(t, i + 1, Len(t))
Arounds == IF RANDOM THEN {RE({Around[i] : i \in 1..Len(Around)})} ELSE {Around[1], Around[2]}

Free(o) == o.f # "define"      \* binds in the scope it is in
In(o) == IF Free(o) THEN Arounds ELSE {"|"}
Step(s, xs) == st' = s /\ steps' = steps \o xs \o <<Pr(s)>>
Works == \E o \in PickOf(Ops(st)) : \E c \in In(o) :
   Step(o.s, << <<Fill(c, Whole(o)), IF c = "(-> | (two 5) ident)" THEN "*" ELSE o.v>>, <<"(vlog)", Log(o.from, Len(o.a))>> >>)
\* an error while an argument is worked out
Fails == \E o \in PickOf(Ops(st)) : \E k \in PickOf(o.from..Len(o.a)) : \E c \in In(o) :
   Step(st, << <<Fill(c, Broken(o, k)), "!E">>, <<"(vlog)", Log(o.from, k)>> >>)
Caught == \E o \in PickOf(Ops(st)) : \E k \in PickOf(o.from..Len(o.a)) : \E c \in In(o) :
   Step(st, << <<"(on-error " \o Fill(c, Broken(o, k)) \o " (lambda (msg) (vprobe 'h) (substring? \"m" \o Str(k) \o "\" msg)) (lambda () (vprobe 'no)))", "#t">>, <<"(vlog)", Paren([i \in 1..(k - o.from + 2) |-> IF i = k - o.from + 2 THEN "h" ELSE Str(o.from + i - 1)])>> >>)
\* an argument the builtin does not take
Wrong == \E o \in PickOf({q \in Ops(st) : q.bad # {}}) : \E b \in PickOf(o.bad) : \E c \in In(o) :
   Step(st, << <<Fill(c, With(o, b[1], b[2])), "!E">>, <<"(vlog)", "*">> >>)
WrongCaught == \E o \in PickOf({q \in Ops(st) : q.bad # {}}) : \E b \in PickOf(o.bad) :
   Step(st, << <<"(on-error (begin " \o With(o, b[1], b[2]) \o " (vprobe 'no) (set! x 99)) (lambda (msg) 'caught))", "caught">>, <<"(not (memq 'no (vlog)))", "#t">> >>)
\* too few or too many arguments: nothing is evaluated
Count == \E o \in PickOf({q \in Ops(st) : Fixed(q)}) : \E few \in PickOf({TRUE, FALSE}) :
   Step(st, << <<Call(o.f, IF few THEN [i \in 1..(Len(o.a) - 1) |-> Probed(o, i)] ELSE [i \in 1..(Len(o.a) + 1) |-> IF i > Len(o.a) THEN "(vprobe 'more)" ELSE Probed(o, i)]), "!E">>, <<"(vlog)", "()">> >>)
\* what was done before the error stays, what comes after it is not done
Before == \E o \in PickOf({q \in Ops(st) : Free(q)}) : \E q \in PickOf({q \in Ops(st) : q.f \in {"set!", "set-car!", "atomic-add!"}}) : \E k \in PickOf(1..8) :
   LET a == Call(o.f, o.a)
       b == Call(q.f, q.a)
       t == CASE k = 1 -> "(begin " \o a \o " (error \"z\") " \o b \o ")"
              [] k = 2 -> "(list " \o a \o " (error \"z\") " \o b \o ")"
              [] k = 3 -> "(let ((a1 " \o a \o ") (a2 (error \"z\"))) " \o b \o ")"
              [] k = 4 -> "(two " \o a \o " (begin (car 1 2) " \o b \o "))"
              [] k = 5 -> "(map (lambda (a1) (if (eq? a1 1) " \o a \o " (begin (error \"z\") " \o b \o "))) '(1 2 3))"
              [] k = 6 -> "(let* ((a1 " \o a \o ") (a2 (nowhere a1))) " \o b \o ")"
              [] k = 7 -> "(cond ((begin " \o a \o " #f) 1) ((error \"z\") 2) (else " \o b \o "))"
              [] k = 8 -> "(do ((i 0 (+ i 1))) ((> i 1) " \o b \o ") (if (eq? i 0) " \o a \o " (error \"z\")))"
   IN Step(o.s, << <<t, "!E">> >>)
\* an error in a handler, and a change made by one
Handled == \E o \in PickOf({q \in Ops(st) : Free(q)}) : \E k \in PickOf(1..4) :
   LET a == Call(o.f, o.a) IN
   Step(o.s, << <<CASE k = 1 -> "(on-error (error \"z\") (lambda (msg) " \o a \o " 'h))"
                    [] k = 2 -> "(on-error 5 (lambda (msg) (set! x 99)) (lambda () " \o a \o " 'h))"
                    [] k = 3 -> "(on-error (on-error (error \"z\") (lambda (msg) " \o a \o " (error \"y\") (set! x 99))) (lambda (msg) (if (substring? \"y\" msg) 'h 'other)))"
                    [] k = 4 -> "(on-error (on-error (begin " \o a \o " 5) (lambda (msg) (set! x 99)) (lambda () (error \"y\"))) (lambda (msg) (if (substring? \"y\" msg) 'h 'other)))", "h">> >>)

Init == st = S0 /\ steps = <<Setup, <<"(vlog)", "*">> >>
Next == (RANDOM \/ Len(steps) < 3 * DEPTH) /\ \E k \in PickOf(1..8) :
   CASE k = 1 -> Works [] k = 2 -> Fails [] k = 3 -> Caught [] k = 4 -> Wrong [] k = 5 -> WrongCaught [] k = 6 -> Count [] k = 7 -> Before [] k = 8 -> Handled
Spec == Init /\ [][Next]_vars
\* ---- the design
Bytes == \A i \in 1..Len(st.bs) : st.bs[i] \in {"0", "1", "2", "3", "7", "8"}
Fifo == Len(st.ch) <= 3
\* in the end: what the channel holds and what was written
RECURSIVE Drain(_)
Drain(q) == IF q = <<>> THEN <<>> ELSE << <<"(car (channel-read ch))", P(q[1])>> >> \o Drain(Tail(q))
EndChecks(z) == Drain(z.ch) \o << <<"(channel-try-read ch)", IF z.open THEN "(#f () #t)" ELSE "(#t () #f)">>, <<"(close-port out)", "*">>,
   <<"(let* ((i (open-input-file (vfn 1)))) (let loop ((acc '())) (let ((r (read i))) (if (eof-object? r) (begin (close-port i) (reverse acc)) (loop (cons r acc))))))", Paren(z.out)>> >>
View == st
Bounded == Len(steps) < 2 + 3 * DEPTH
BoundedNext == Len(steps') <= 2 + 3 * DEPTH
EmitEdge == EmitSteps("e", steps' \o << <<"(begin (close-port out) 1)", "1">> >>)
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN EmitSteps("p", steps' \o EndChecks(st')) ELSE TRUE
=============================================================================
