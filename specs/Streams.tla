------------------------------ MODULE Streams ------------------------------
(* The streams of lisp/streams.lsp.  A stream is a cell: a first element that is  *)
(* known and a rest that is not computed before it is asked for, then computed     *)
(* once, and again only if computing it failed.  What a stream yields is what the  *)
(* same operations yield on lists, whatever was asked for before, by whom and in   *)
(* which order.                                                                    *)
EXTENDS Emit, Integers, FiniteSets
CONSTANTS RANDOM, DEPTH, LIB, MAXS, SRC   \* LIB: the file; SRC: "few" or "all"
VARIABLES heap,    \* the cells
          names,   \* name |-> <<cell, list>>: the cell (0: the empty stream), and (the beginning of) the list it stands for
          sw,      \* computing a rest of the failing kind fails
          steps
vars == <<heap, names, sw, steps>>
RE(S) == RandomElement(S)
FUEL == 60
\* ---- w = [h, v, err, log, fuel]: the cells, the result, failed or not, what was computed, what is left to spend
W(h) == [h |-> h, v |-> 0, err |-> FALSE, log |-> <<>>, fuel |-> FUEL]
Val(w, v) == [w EXCEPT !.v = v]
Log(w, x) == [w EXCEPT !.log = Append(@, x)]
Cell(w, car, rest) == [w EXCEPT !.h = Append(@, [car |-> car, rest |-> rest, done |-> FALSE, next |-> 0]), !.v = Len(w.h) + 1]
T(op, f, xs, n, a, b) == [op |-> op, f |-> f, xs |-> xs, n |-> n, a |-> a, b |-> b]
Fun(f, x) == CASE f = "inc" -> x + 1 [] f = "dbl" -> 2 * x [] OTHER -> x * x
Pred(p, x) == CASE p = "odd" -> (x % 2) = 1 [] p = "big" -> x > 2 [] p = "no" -> FALSE [] OTHER -> TRUE
RECURSIVE Force(_, _), Build(_, _), Filter(_, _, _)
\* the rest of cell c
Force(w, c) == IF w.err THEN w ELSE IF w.fuel = 0 THEN [w EXCEPT !.err = TRUE]
  ELSE IF w.h[c].done THEN Val(w, w.h[c].next)
  ELSE LET r == Build([w EXCEPT !.fuel = @ - 1], w.h[c].rest) IN IF r.err THEN r ELSE [r EXCEPT !.h[c].done = TRUE, !.h[c].next = r.v]
Map1(w, f, a) == IF w.err THEN w ELSE IF a = 0 THEN Val(w, 0) ELSE LET v == Fun(f, w.h[a].car) IN Cell(Log(w, v), v, T("mapcdr", f, <<>>, 0, a, 0))
Map2(w, a, b) == IF w.err THEN w ELSE IF a = 0 THEN Val(w, 0) ELSE LET v == w.h[a].car + w.h[b].car IN Cell(Log(w, v), v, T("map2cdr", "", <<>>, 0, a, b))
Filter(w, p, a) == IF w.err THEN w ELSE IF w.fuel = 0 THEN [w EXCEPT !.err = TRUE] ELSE IF a = 0 THEN Val(w, 0)
  ELSE LET w1 == Log(w, w.h[a].car) IN IF Pred(p, w.h[a].car) THEN Cell(w1, w.h[a].car, T("filcdr", p, <<>>, 0, a, 0))
                                       ELSE LET r == Force(w1, a) IN Filter(r, p, r.v)
Add(w, a, b) == IF w.err THEN w ELSE IF a = 0 \/ b = 0 THEN Val(w, 0) ELSE Cell(w, w.h[a].car + w.h[b].car, T("addcdr", "", <<>>, 0, a, b))
Merge(w, a, b) == IF w.err THEN w ELSE IF a = 0 THEN Val(w, b) ELSE IF b = 0 THEN Val(w, a)
  ELSE LET x == w.h[a].car y == w.h[b].car IN
    IF x < y THEN Cell(w, x, T("mergea", "", <<>>, 0, a, b)) ELSE IF x > y THEN Cell(w, y, T("mergeb", "", <<>>, 0, a, b)) ELSE Cell(w, x, T("mergeab", "", <<>>, 0, a, b))
Scale(w, a, n) == IF w.err THEN w ELSE Cell(w, w.h[a].car * n, T("scacdr", "", <<>>, n, a, 0))
Two(w, a, b, K(_, _, _)) == LET r == Force(w, a) q == Force(r, b) IN K(q, r.v, q.v)
Build(w, t) ==
  CASE t.op = "lit" -> IF t.xs = <<>> THEN Val(w, 0) ELSE Cell(Log(w, t.xs[1]), t.xs[1], [t EXCEPT !.xs = Tail(@)])
    [] t.op = "boom" -> LET w1 == Log(w, 77) IN IF sw THEN [w1 EXCEPT !.err = TRUE] ELSE IF t.xs = <<>> THEN Val(w1, 0) ELSE Cell(Log(w1, t.xs[1]), t.xs[1], [t EXCEPT !.xs = Tail(@)])
    [] t.op = "from" -> Cell(Log(w, t.n), t.n, [t EXCEPT !.n = @ + 1])
    [] t.op = "enum" -> IF t.n > t.a THEN Val(w, 0) ELSE Cell(w, t.n, [t EXCEPT !.n = @ + 1])
    [] t.op = "mapcdr" -> LET r == Force(w, t.a) IN Map1(r, t.f, r.v)
    [] t.op = "map2cdr" -> Two(w, t.a, t.b, LAMBDA q, x, y : Map2(q, x, y))
    [] t.op = "filcdr" -> LET r == Force(w, t.a) IN Filter(r, t.f, r.v)
    [] t.op = "addcdr" -> Two(w, t.a, t.b, LAMBDA q, x, y : Add(q, x, y))
    [] t.op = "mergea" -> LET r == Force(w, t.a) IN Merge(r, r.v, t.b)
    [] t.op = "mergeb" -> LET r == Force(w, t.b) IN Merge(r, t.a, r.v)
    [] t.op = "mergeab" -> Two(w, t.a, t.b, LAMBDA q, x, y : Merge(q, x, y))
    [] OTHER -> LET r == Force(w, t.a) IN Scale(r, r.v, t.n)
\* ---- asking
RECURSIVE Take(_, _, _), Ref(_, _, _), Each(_, _)
\* [w, xs]: up to n elements from cell c on
Take(w, c, n) == IF w.err \/ n = 0 \/ c = 0 THEN [w |-> w, xs |-> <<>>]
                 ELSE LET r == Force(w, c) s == Take(r, r.v, n - 1) IN [w |-> s.w, xs |-> <<w.h[c].car>> \o s.xs]
Ref(w, c, n) == IF w.err \/ c = 0 THEN [w |-> w, xs |-> <<>>] ELSE IF n = 0 THEN [w |-> w, xs |-> <<w.h[c].car>>] ELSE LET r == Force(w, c) IN Ref(r, r.v, n - 1)
Each(w, c) == IF w.err \/ c = 0 THEN w ELSE LET r == Force(Log(w, w.h[c].car), c) IN Each(r, r.v)
\* ---- what they are on lists (of infinite ones the beginning: whole says whether it is all)
Min(a, b) == IF a < b THEN a ELSE b
L(xs, whole) == [xs |-> xs, whole |-> whole]
RECURSIVE LMerge(_, _), LFilter(_, _)
LMerge(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE IF a[1] < b[1] THEN <<a[1]>> \o LMerge(Tail(a), b) ELSE IF a[1] > b[1] THEN <<b[1]>> \o LMerge(a, Tail(b)) ELSE <<a[1]>> \o LMerge(Tail(a), Tail(b))
LFilter(a, p) == IF a = <<>> THEN <<>> ELSE (IF Pred(p, a[1]) THEN <<a[1]>> ELSE <<>>) \o LFilter(Tail(a), p)
Known(a, b) == Min(IF a.whole THEN 99 ELSE Len(a.xs), IF b.whole THEN 99 ELSE Len(b.xs))
Cut(xs, n) == SubSeq(xs, 1, Min(n, Len(xs)))
LZip(a, b) == L([i \in 1..Min(Len(a.xs), Len(b.xs)) |-> a.xs[i] + b.xs[i]], (a.whole /\ Len(a.xs) <= Len(b.xs)) \/ (b.whole /\ Len(b.xs) <= Len(a.xs)))
\* ---- expressions
Lits == {<<>>, <<1>>, <<2, 3>>, <<1, 3, 4>>}
RECURSIVE LitSrc(_)
LitSrc(xs) == IF xs = <<>> THEN "the-empty-stream" ELSE "(stream-cons (vprobe " \o Str(xs[1]) \o ") " \o LitSrc(Tail(xs)) \o ")"
RECURSIVE BoomSrc(_)
BoomSrc(xs) == "(begin (vprobe 77) (if vsw (error \"boom\") " \o (IF xs = <<>> THEN "'()" ELSE "(stream-cons (vprobe " \o Str(xs[1]) \o ") " \o BoomSrc(Tail(xs)) \o ")") \o "))"
FunSrc(f) == CASE f = "inc" -> "(lambda (x) (vprobe (+ x 1)))" [] f = "dbl" -> "(lambda (x) (vprobe (* 2 x)))" [] OTHER -> "(lambda (x) (vprobe (* x x)))"
PredSrc(p) == CASE p = "odd" -> "(lambda (x) (odd? (vprobe x)))" [] p = "big" -> "(lambda (x) (> (vprobe x) 2))" [] p = "no" -> "(lambda (x) (begin (vprobe x) #f))" [] OTHER -> "vprobe"
Names == IF SRC = "all" THEN {"s1", "s2", "s3"} ELSE {"s1", "s2"}
Bound == {n \in DOMAIN names : TRUE}
C(n) == names[n][1]
E(n) == names[n][2]
\* an expression: <<source, result, list>>
Expr(k, n, m, p) ==
  CASE k = 1 -> LET xs == p.xs IN <<LitSrc(xs), Build(W(heap), T("lit", "", xs, 0, 0, 0)), L(xs, TRUE)>>
    [] k = 2 -> LET xs == p.xs IN <<BoomSrc(xs), Build(W(heap), T("boom", "", xs, 0, 0, 0)), L(xs, TRUE)>>
    [] k = 3 -> <<"(vfrom " \o Str(p.n) \o ")", Build(W(heap), T("from", "", <<>>, p.n, 0, 0)), L([i \in 1..8 |-> p.n + i - 1], FALSE)>>
    [] k = 4 -> <<"(stream-enumerate-interval " \o Str(p.n) \o " " \o Str(p.n + p.m - 1) \o ")", Build(W(heap), T("enum", "", <<>>, p.n, p.n + p.m - 1, 0)), L([i \in 1..p.m |-> p.n + i - 1], TRUE)>>
    [] k = 5 -> <<"(stream-map " \o FunSrc(p.f) \o " " \o n \o ")", Map1(W(heap), p.f, C(n)), L([i \in 1..Len(E(n).xs) |-> Fun(p.f, E(n).xs[i])], E(n).whole)>>
    [] k = 6 -> <<"(stream-filter " \o PredSrc(p.p) \o " " \o n \o ")", Filter(W(heap), p.p, C(n)), L(LFilter(E(n).xs, p.p), E(n).whole)>>
    [] k = 7 -> <<"(add-streams " \o n \o " " \o m \o ")", Add(W(heap), C(n), C(m)), LZip(E(n), E(m))>>
    [] k = 8 -> <<"(merge " \o n \o " " \o m \o ")", Merge(W(heap), C(n), C(m)), L(IF E(n).whole /\ E(m).whole THEN LMerge(E(n).xs, E(m).xs) ELSE Cut(LMerge(E(n).xs, E(m).xs), Known(E(n), E(m))), E(n).whole /\ E(m).whole)>>
    [] k = 9 -> <<"(scale-stream " \o n \o " " \o Str(p.n + 1) \o ")", Scale(W(heap), C(n), p.n + 1), L([i \in 1..Len(E(n).xs) |-> E(n).xs[i] * (p.n + 1)], FALSE)>>
    [] k = 10 -> <<"(stream-cdr " \o n \o ")", Force(W(heap), C(n)), L(Tail(E(n).xs), E(n).whole)>>
    [] k = 11 -> <<"(stream-map (lambda (x y) (vprobe (+ x y))) " \o n \o " " \o m \o ")", Map2(W(heap), C(n), C(m)), LZip(E(n), E(m))>>
    [] k = 12 -> <<"(let ((rest " \o n \o ")) (stream-cons (vprobe " \o Str(p.n) \o ") rest))", LET w == Cell(Log(W(heap), p.n), p.n, T("name", "", <<>>, 0, 0, 0)) IN [w EXCEPT !.h[w.v].done = TRUE, !.h[w.v].next = C(n)], L(<<p.n>> \o E(n).xs, E(n).whole)>>
    [] OTHER -> <<n, Val(W(heap), C(n)), E(n)>>
Endless(n) == ~E(n).whole
Allowed(k, n, m) == CASE k = 9 -> Endless(n) [] k = 10 -> C(n) # 0 [] k = 11 -> (Endless(n) /\ Endless(m)) \/ (E(n).whole /\ E(m).whole /\ Len(E(n).xs) = Len(E(m).xs)) [] OTHER -> TRUE
\* what can be asked for without waiting for ever
Ran(w) == w.fuel > 0
LogStep(w) == <<"(vlog)", Paren([i \in 1..Len(w.log) |-> Str(w.log[i])])>>
Prepare == << <<"(load \"" \o LIB \o "\")", "*", "g">>, <<"(define vsw #f)", "#f">>, <<"(begin (define (vfrom n) (stream-cons (vprobe n) (vfrom (+ n 1)))) 1)", "1">>,
  <<"(begin (define (vtake s n) (if (or (== n 0) (stream-null? s)) '() (let ((x (stream-car s))) (cons x (vtake (stream-cdr s) (- n 1)))))) 1)", "1">> >>
Bind(nm, ex) == LET w == ex[2] IN Ran(w) /\ heap' = w.h
  /\ (IF w.err THEN UNCHANGED names ELSE names' = [x \in Bound \cup {nm} |-> IF x = nm THEN <<w.v, ex[3]>> ELSE names[x]])
  /\ steps' = steps \o << <<"(begin (define " \o nm \o " " \o ex[1] \o ") 'ok)", IF w.err THEN "!E" ELSE "ok">>, LogStep(w) >> /\ UNCHANGED sw
Ask(src, w, val) == Ran(w) /\ heap' = w.h /\ steps' = steps \o << <<src, IF w.err THEN "!E" ELSE val>>, LogStep(w) >> /\ UNCHANGED <<names, sw>>
SeqOf(xs) == Paren([i \in 1..Len(xs) |-> Str(xs[i])])
Asks(n, k, j) ==
  CASE j = 1 -> LET r == Take(W(heap), C(n), k) IN Ask("(vtake " \o n \o " " \o Str(k) \o ")", r.w, SeqOf(r.xs))
    [] j = 2 -> LET r == Ref(W(heap), C(n), k) IN Ask("(stream-ref " \o n \o " " \o Str(k) \o ")", r.w, IF r.xs = <<>> THEN "()" ELSE Str(r.xs[1]))
    [] j = 3 -> (E(n).whole /\ LET r == Each(W(heap), C(n)) IN Ask("(stream-for-each vprobe " \o n \o ")", r, "done"))
    [] j = 4 -> Ask("(stream-null? " \o n \o ")", W(heap), Bool(C(n) = 0))
    [] j = 5 -> (C(n) # 0 /\ Ask("(stream-car " \o n \o ")", W(heap), Str(heap[C(n)].car)))
    [] OTHER -> FALSE
Switch == sw' = ~sw /\ steps' = steps \o << <<"(begin (set! vsw " \o Bool(~sw) \o ") 1)", "1">> >> /\ UNCHANGED <<heap, names>>
\* streams of the library
Library == << <<"(vtake integers 6)", "(1 2 3 4 5 6)">>, <<"(vtake fib 8)", "(1 1 2 3 5 8 13 21)">>, <<"(vtake odds 5)", "(1 3 5 7 9)">>, <<"(vtake h 14)", "(1 2 3 4 5 6 8 9 10 12 15 16 18 20)">>,
  <<"(vtake (partial-sums integers) 5)", "(1 3 6 10 15)">>, <<"(stream-ref integers 30)", "31">>, <<"(stream-ref h 20)", "40">>, <<"(vtake stream-1-to-1000 3)", "(1 2 3)">>, <<"(stream-ref stream-1-to-1000 1000)", "()">>,
  <<"(vtake zeros 3)", "(0 0 0)">>, <<"(vtake (add-streams ones twos) 3)", "(3 3 3)">>, <<"(vtake a 5)", "(1 2)">>, <<"(vtake b 5)", "(3 4 5)">>, <<"(vtake (merge a b) 9)", "(1 2 3 4 5)">> >>
\* promises by themselves
Promise(k) == << <<"(begin (define p (delay (begin (vprobe 5) (if vsw (error \"e\") (vprobe " \o Str(k) \o "))))) (vlog))", "()">>,
  <<"(force p)", IF sw THEN "!E" ELSE Str(k)>>, <<"(on-error (force p) (lambda (m) 'bad))", IF sw THEN "bad" ELSE Str(k)>>, <<"(vlog)", IF sw THEN "(5 5)" ELSE Paren(<<"5", Str(k)>>)>>,
  <<"(begin (set! vsw #f) (list (force p) (force p)))", Paren(<<Str(k), Str(k)>>)>>, <<"(vlog)", IF sw THEN Paren(<<"5", Str(k)>>) ELSE "()">>,
  <<"(let ((x 3) (already-run? 1) (result 2) (proc 4)) (let ((q (stream-cons x (list x already-run? result proc)))) (set! x 9) (list (stream-car q) (stream-cdr q) (begin (set! x 10) (stream-cdr q)))))", "(3 (9 1 2 4) (9 1 2 4))">> >>
Promises == \E k \in {RE(6..9)} : sw' = FALSE /\ steps' = steps \o Promise(k) \o Library /\ UNCHANGED <<heap, names>>
Init == heap = <<>> /\ names = [x \in {} |-> 0] /\ sw = FALSE /\ steps = Prepare
PSet(k) == CASE k \in {1, 2} -> {[xs |-> x] : x \in (IF SRC = "all" THEN Lits ELSE {<<1>>, <<1, 3, 4>>})} [] k = 3 -> {[n |-> x] : x \in {1, 2}} [] k = 4 -> {[n |-> x, m |-> y] : x \in {1, 2}, y \in {0, 1, 3}}
            [] k = 5 -> {[f |-> x] : x \in {"inc", "dbl"}} [] k = 6 -> {[p |-> x] : x \in (IF SRC = "all" THEN {"odd", "big", "no", "all"} ELSE {"odd"})} [] k \in {9, 12} -> {[n |-> x] : x \in {1, 2}} [] OTHER -> {0}
ByHand(k) == CASE k \in {1, 2, 3, 4} -> 0 [] k \in {7, 8, 11} -> 2 [] OTHER -> 1
Define(k, nm) == \E p \in PSet(k) :
  CASE ByHand(k) = 0 -> Bind(nm, Expr(k, "", "", p))
    [] ByHand(k) = 1 -> \E n \in Bound : (Allowed(k, n, n) /\  Bind(nm, Expr(k, n, n, p)))
    [] OTHER -> \E n \in Bound, m \in Bound : Allowed(k, n, m) /\ Bind(nm, Expr(k, n, m, p))
All == \/ \E k \in 1..13, nm \in Names : Define(k, nm)
       \/ \E n \in Bound, k \in {0, 1, 2, 4}, j \in 1..5 : (j \in {3, 4, 5} => k = 0) /\ Asks(n, k, j)
       \/ (\E n \in Bound : E(n).whole) /\ Switch
Some == LET i == RE(1..20) IN
  CASE i = 1 -> Switch [] i = 2 -> (IF RE(1..8) = 1 THEN Promises ELSE Switch)
    [] i < 9 \/ Bound = {} -> (\E k \in {RE(1..13)}, nm \in {RE(Names)} : \E p \in {RE(PSet(k))} :
         IF ByHand(k) = 0 THEN Bind(nm, Expr(k, "", "", p))
         ELSE IF Bound = {} THEN Switch
         ELSE \E n \in {RE(Bound)}, m \in {RE(Bound)} : IF Allowed(k, n, m) /\  Ran(Expr(k, n, m, p)[2]) THEN Bind(nm, Expr(k, n, m, p)) ELSE Asks(n, 0, 4))
    [] OTHER -> \E n \in {RE(Bound)}, k \in {RE(0..6)}, j \in {RE(1..5)} : IF ENABLED Asks(n, k, j) THEN Asks(n, k, j) ELSE Asks(n, 0, 4)
Next == IF RANDOM THEN Some ELSE All
Spec == Init /\ [][Next]_vars
View == <<heap, names, sw>>
Bounded == Len(steps) <= MAXS
BoundedNext == Len(steps') <= MAXS + 2
\* laziness cannot be seen: a stream yields what the lists yield
Transparent == ~sw => \A n \in Bound : LET k == Len(E(n).xs) r == Take(W(heap), C(n), k) IN
   (Ran(r.w) => r.xs = E(n).xs) /\ (E(n).whole /\ Ran(r.w) => LET s == Ref(W(heap), C(n), k) IN Ran(s.w) => s.xs = <<>>)
\* what was computed stays
Kept == [][\A c \in 1..Len(heap) : heap'[c].car = heap[c].car /\ (heap[c].done => heap'[c].done /\ heap'[c].next = heap[c].next)]_vars
EmitEdge == EmitSteps("e", steps')
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
