------------------------------ MODULE Profile ------------------------------
(* Profiling an expression yields what the expression yields, and tells of every   *)
(* call of a function, primitive or special form that evaluating it makes: an       *)
(* entry and an exit each, of the same kind, name and identity, nested the way the   *)
(* calls are, whether they yield a value or an error, and nothing of what is done    *)
(* after it.  The analyser of lisp/profiling.lsp reads back the same tree.           *)
EXTENDS Emit, Integers, FiniteSets
CONSTANTS RANDOM, DEPTH, LIB, LEVEL, AST
VARIABLES a, steps
vars == <<a, steps>>
RE(S) == RandomElement(S)
\* ---- expressions: <<"n", k>>, <<"x">>, <<"err">> and <<op, e, ...>>; conditions are <<"gt", e, e>>, <<"not", c>>, <<"t">>, <<"f">>
Fs == {"vf", "vg", "vr", "vh", "v%d", "vl"}
Body(f) == CASE f = "vf" -> <<"add", <<"x">>, <<"n", 1>>>>
             [] f = "vg" -> <<"if", <<"gt", <<"x">>, <<"n", 2>>>>, <<"call", "vf", <<"x">>>>, <<"mul", <<"x">>, <<"x">>>>>>
             [] f = "vr" -> <<"if", <<"gt", <<"x">>, <<"n", 0>>>>, <<"add", <<"n", 2>>, <<"call", "vr", <<"sub", <<"x">>, <<"n", 1>>>>>>>>, <<"n", 0>>>>
             [] f = "vh" -> <<"begin", <<"call", "vf", <<"x">>>>, <<"err">>>>
             [] f = "vl" -> <<"let", <<"call", "vf", <<"x">>>>, <<"when", <<"gt", <<"x">>, <<"n", 3>>>>, <<"call", "v%d", <<"x">>>>>>>>
             [] OTHER -> <<"x">>
RECURSIVE Src(_)
Src(e) == CASE e[1] = "n" -> Str(e[2]) [] e[1] = "x" -> "x" [] e[1] = "err" -> "(error \"e\")" [] e[1] = "t" -> "#t" [] e[1] = "f" -> "#f"
  [] e[1] = "add" -> "(+ " \o Src(e[2]) \o " " \o Src(e[3]) \o ")" [] e[1] = "sub" -> "(- " \o Src(e[2]) \o " " \o Src(e[3]) \o ")" [] e[1] = "mul" -> "(* " \o Src(e[2]) \o " " \o Src(e[3]) \o ")"
  [] e[1] = "gt" -> "(> " \o Src(e[2]) \o " " \o Src(e[3]) \o ")" [] e[1] = "not" -> "(not " \o Src(e[2]) \o ")" [] e[1] = "and" -> "(and " \o Src(e[2]) \o " " \o Src(e[3]) \o ")" [] e[1] = "or" -> "(or " \o Src(e[2]) \o " " \o Src(e[3]) \o ")"
  [] e[1] = "if" -> "(if " \o Src(e[2]) \o " " \o Src(e[3]) \o " " \o Src(e[4]) \o ")" [] e[1] = "when" -> "(begin (when " \o Src(e[2]) \o " " \o Src(e[3]) \o ") 4)" [] e[1] = "cond" -> "(cond (" \o Src(e[2]) \o " " \o Src(e[3]) \o ") (else " \o Src(e[4]) \o "))"
  [] e[1] = "begin" -> "(begin " \o Src(e[2]) \o " " \o Src(e[3]) \o ")" [] e[1] = "let" -> "(let ((x " \o Src(e[2]) \o ")) " \o Src(e[3]) \o ")" [] e[1] = "call" -> "(" \o e[2] \o " " \o Src(e[3]) \o ")"
  [] e[1] = "lam" -> "((lambda (x) " \o Src(e[2]) \o ") " \o Src(e[3]) \o ")" [] e[1] = "catch" -> "(on-error " \o Src(e[2]) \o " (lambda (m) " \o Src(e[3]) \o "))" [] e[1] = "map" -> "(length (map " \o e[2] \o " (list " \o Src(e[3]) \o " " \o Src(e[4]) \o ")))"
  [] e[1] = "app" -> "(apply " \o e[2] \o " (list " \o Src(e[3]) \o "))" [] e[1] = "prim" -> "(apply + (list " \o Src(e[2]) \o " 1))" [] e[1] = "mac" -> "(vm " \o Src(e[2]) \o ")" [] e[1] = "slot" -> "(foo:> {foo: " \o e[2] \o "} " \o Src(e[3]) \o ")"
  [] e[1] = "arity" -> "(vf " \o Src(e[2]) \o " 1)" [] e[1] = "parity" -> "(not " \o Src(e[2]) \o " 1)" [] e[1] = "each" -> "(begin (for-each " \o e[2] \o " (list " \o Src(e[3]) \o ")) 3)" [] e[1] = "eval" -> "(eval '" \o Src(e[2]) \o ")"
  [] OTHER -> "(let loop ((x " \o Src(e[2]) \o ")) (if (> x 2) " \o Src(e[3]) \o " (loop 3)))"
\* ---- evaluation: [v, err, calls], calls the trees of the calls that are made
R(v, cs) == [v |-> v, err |-> FALSE, calls |-> cs]
Fail(cs) == [v |-> 0, err |-> TRUE, calls |-> cs]
Node(kind, name, cs) == "(" \o kind \o " " \o name \o (IF cs = <<>> THEN "" ELSE " " \o JoinWith(cs, " ")) \o ")"
In(kind, name, r) == [r EXCEPT !.calls = <<Node(kind, name, @)>>]
Lead(cs, r) == [r EXCEPT !.calls = cs \o @]
RECURSIVE Ev(_, _)
\* a function with a given argument
Fn(name, body, v) == In("func", name, Ev(body, v))
User(f, v) == Fn(f, Body(f), v)
Bin(name, e, x, K(_, _)) == LET p == Ev(e[2], x) IN IF p.err THEN p ELSE LET q == Ev(e[3], x) IN IF q.err THEN Lead(p.calls, q) ELSE R(K(p.v, q.v), p.calls \o q.calls \o <<Node("prim", name, <<>>)>>)
Unary(name, r, v) == IF r.err THEN r ELSE R(v, r.calls \o <<Node("prim", name, <<>>)>>)
B(c) == IF c THEN 1 ELSE 0
Then(p, q) == Lead(p.calls, q)
Lambda == Node("form", "lambda", <<>>)
\* the values of p and then q as a list
Listed(p, q) == IF p.err THEN p ELSE IF q.err THEN Lead(p.calls, q) ELSE R(0, p.calls \o q.calls \o <<Node("prim", "list", <<>>)>>)
Ev(e, x) ==
  CASE e[1] = "n" -> R(e[2], <<>>) [] e[1] = "x" -> R(x, <<>>) [] e[1] = "t" -> R(1, <<>>) [] e[1] = "f" -> R(0, <<>>)
    [] e[1] = "err" -> Fail(<<Node("prim", "error", <<>>)>>)
    [] e[1] = "add" -> Bin("+", e, x, LAMBDA p, q : p + q) [] e[1] = "sub" -> Bin("-", e, x, LAMBDA p, q : p - q) [] e[1] = "mul" -> Bin("*", e, x, LAMBDA p, q : p * q) [] e[1] = "gt" -> Bin(">", e, x, LAMBDA p, q : B(p > q))
    [] e[1] = "not" -> (LET r == Ev(e[2], x) IN Unary("not", r, 1 - r.v))
    [] e[1] = "and" -> In("form", "and", LET p == Ev(e[2], x) IN IF p.err \/ p.v = 0 THEN p ELSE Then(p, Ev(e[3], x)))
    [] e[1] = "or" -> In("form", "or", LET p == Ev(e[2], x) IN IF p.err \/ p.v = 1 THEN p ELSE Then(p, Ev(e[3], x)))
    [] e[1] = "if" -> In("form", "if", LET p == Ev(e[2], x) IN IF p.err THEN p ELSE Then(p, Ev(e[IF p.v = 1 THEN 3 ELSE 4], x)))
    [] e[1] = "cond" -> In("form", "cond", LET p == Ev(e[2], x) IN IF p.err THEN p ELSE Then(p, Ev(e[IF p.v = 1 THEN 3 ELSE 4], x)))
    [] e[1] = "when" -> In("form", "begin", LET w == In("form", "when", LET p == Ev(e[2], x) IN IF p.err \/ p.v = 0 THEN p ELSE Then(p, Ev(e[3], x))) IN IF w.err THEN w ELSE R(4, w.calls))
    [] e[1] = "begin" -> In("form", "begin", LET p == Ev(e[2], x) IN IF p.err THEN p ELSE Then(p, Ev(e[3], x)))
    [] e[1] = "let" -> In("form", "let", LET p == Ev(e[2], x) IN IF p.err THEN p ELSE Then(p, Ev(e[3], p.v)))
    [] e[1] = "call" -> (LET p == Ev(e[3], x) IN IF p.err THEN p ELSE Then(p, User(e[2], p.v)))
    [] e[1] = "lam" -> Lead(<<Lambda>>, LET p == Ev(e[3], x) IN IF p.err THEN p ELSE Then(p, Fn("unnamed", e[2], p.v)))
    [] e[1] = "catch" -> In("form", "on-error", LET p == Ev(e[2], x) IN IF ~p.err THEN p ELSE LET h == Fn("unnamed", e[3], x) IN Lead(p.calls \o <<Lambda>>, h))
    [] e[1] = "map" -> (LET l == Listed(Ev(e[3], x), Ev(e[4], x)) IN IF l.err THEN l ELSE
         LET p == User(e[2], Ev(e[3], x).v) q == User(e[2], Ev(e[4], x).v) m == In("prim", "map", IF p.err THEN p ELSE Then(p, q)) IN Lead(l.calls, IF m.err THEN m ELSE Unary("length", m, 2)))
    [] e[1] = "app" -> (LET l == Ev(e[3], x) IN IF l.err THEN l ELSE Lead(l.calls \o <<Node("prim", "list", <<>>)>>, In("prim", "apply", User(e[2], l.v))))
    [] e[1] = "each" -> In("form", "begin", LET l == Ev(e[3], x) IN IF l.err THEN l ELSE Lead(l.calls \o <<Node("prim", "list", <<>>)>>, LET r == In("prim", "for-each", User(e[2], l.v)) IN IF r.err THEN r ELSE R(3, r.calls)))
    [] e[1] = "prim" -> (LET l == Ev(e[2], x) IN IF l.err THEN l ELSE R(l.v + 1, l.calls \o <<Node("prim", "list", <<>>), Node("prim", "apply", <<Node("prim", "+", <<>>)>>)>>))
    [] e[1] = "mac" -> Lead(<<Node("form", "quasiquote", <<>>)>>, LET r == Ev(e[2], x) IN Unary("+", r, r.v + 1))
    [] e[1] = "slot" -> (LET p == Ev(e[3], x) IN Lead(<<Node("prim", "make-frame", <<>>)>>, IF p.err THEN p ELSE Lead(p.calls, In("prim", "send", User(e[2], p.v)))))
    [] e[1] = "arity" -> Fail(<<>>)
    [] e[1] = "parity" -> Fail(<<>>)
    [] e[1] = "eval" -> In("prim", "eval", Ev(e[2], x))
    [] OTHER -> In("form", "let", LET p == Ev(e[2], x) IN IF p.err THEN p ELSE Then(p,
          LET go == Ev(<<"gt", <<"x">>, <<"n", 2>>>>, p.v).calls IN
          In("func", "loop", IF p.v > 2 THEN In("form", "if", Lead(go, Ev(e[3], p.v))) ELSE In("form", "if", Lead(go, In("func", "loop", In("form", "if", Lead(go, Ev(e[3], 3)))))))))
\* ---- what is replayed
File == "(vfn 1)"
Tree(r) == Paren(r.calls)
Res(r) == IF r.err THEN "!E" ELSE Str(r.v)
Profiled(e) == LET r == Ev(e, 0) p == "(vprofile " \o Src(e) \o ")" IN
  << <<p, Res(r)>>, <<"(vprof " \o File \o ")", Tree(r)>>, <<Src(e), Res(r)>>, <<"(vprof " \o File \o ")", Tree(r)>>, <<"(begin (load-profile " \o File \o ") (vtrees call-trees))", Tree(r)>> >>
Scoped(e, k) == LET r == Ev(e, k) IN << <<"(let ((x " \o Str(k) \o ")) (vprofile " \o Src(e) \o "))", Res(r)>>, <<"(vprof " \o File \o ")", Tree(r)>> >>
Caught(e) == LET r == Ev(e, 0) IN << <<"(on-error (vprofile " \o Src(e) \o ") (lambda (m) (vf 100)))", IF r.err THEN "101" ELSE Str(r.v)>>, <<"(vprof " \o File \o ")", Tree(r)>> >>
Bad == << <<"(profile (vprobe 1) 5)", "!E">>, <<"(profile (vprobe 2) \"/nonexistent/dir/file\")", "!E">>, <<"(profile (vprobe 3) 'name)", "!E">>, <<"(vlog)", "()">>, <<"(profile)", "!E">>, <<"(profile 1 \"a\" 3)", "!E">> >>
\* several processes: the same calls, in any order
Together == << <<"(vprofile (let ((p (fork (lambda (p) (vr 1)))) (q (fork (lambda (p) (vf 5))))) (vf 2) (+ (join p) (join q))))", "8">>,
  <<"(vprof-all " \o File \o ")", "(\"form if\" \"form if\" \"form lambda\" \"form lambda\" \"form let\" \"func unnamed\" \"func unnamed\" \"func vf\" \"func vf\" \"func vr\" \"func vr\" \"prim +\" \"prim +\" \"prim +\" \"prim +\" \"prim -\" \"prim >\" \"prim >\" \"prim fork\" \"prim fork\" \"prim join\" \"prim join\")">> >>
Define(f) == <<"(begin (define (" \o f \o " x) " \o Src(Body(f)) \o ") 1)", "1">>
Prepare == << <<"(begin (vclear) (define x 0) (load \"" \o LIB \o "\") 1)", "1", "g">>, Define("vf"), Define("v%d"), Define("vg"), Define("vr"), Define("vh"), Define("vl"), <<"(begin (defmacro (vm e) `(+ ,e 1)) (defmacro (vprofile e) `(profile ,e ,(vfn 1))) 1)", "1">>,
  <<"(begin (define (vtrees l) (let loop ((l l) (r '())) (if (null? l) r (loop (cdr l) (if (eq? (name: (car l)) 'quote) r (cons (cons (type: (car l)) (cons (name: (car l)) (vtrees (children: (car l))))) r)))))) 1)", "1">> >>
Clean == << <<"(vclear)", "()">> >>
Init == a = <<"n", 0>> /\ steps = IF RANDOM THEN Prepare ELSE <<>>
D0 == {<<"n", 4>>, <<"x">>, <<"err">>}
Conds == {<<"t">>, <<"gt", <<"x">>, <<"n", 2>>>>, <<"gt", <<"n", 2>>, <<"x">>>>, <<"not", <<"t">>>>, <<"and", <<"t">>, <<"gt", <<"n", 1>>, <<"err">>>>>>, <<"or", <<"f">>, <<"not", <<"f">>>>>>}
Op1 == {"prim", "mac", "arity", "parity", "eval"}
OpF == {"call", "app", "slot", "each"}
Op2 == {"add", "begin", "let", "lam", "catch", "mul", "loop"}
Op3 == {"if", "cond"}
Level(S, T, G) == {<<o, e>> : o \in Op1, e \in S} \cup {<<o, f, e>> : o \in OpF, f \in G, e \in S} \cup {<<o, e, d>> : o \in Op2, e \in S, d \in T} \cup {<<o, e, d>> : o \in Op2, e \in T, d \in S}
                 \cup {<<o, c, e, d>> : o \in Op3, c \in Conds, e \in S, d \in T} \cup {<<"when", c, e>> : c \in Conds, e \in S} \cup {<<"map", f, e, d>> : f \in G, e \in S, d \in T}
D1 == Level(D0, D0, Fs)
D1s == Level({<<"x">>, <<"err">>}, {<<"n", 4>>}, {"vg", "vh"})
Grow == ~RANDOM /\ a = <<"n", 0>> /\ \E e \in (CASE LEVEL = 1 -> D1 [] LEVEL = 2 -> Level(D1s, {<<"n", 1>>}, {"vl"}) [] OTHER -> Level(D1, D0, {"vg", "vh"})) : a' = e /\ steps' = Prepare \o Profiled(e) \o Scoped(e, 3) \o Caught(e) \o Clean
RECURSIVE G(_), GC(_)
GC(d) == LET i == RE(1..6) IN IF d = 0 THEN RE(Conds) ELSE CASE i < 3 -> RE(Conds) [] i = 3 -> <<"not", GC(d - 1)>> [] i = 4 -> <<"and", GC(d - 1), GC(d - 1)>> [] i = 5 -> <<"or", GC(d - 1), GC(d - 1)>> [] OTHER -> <<"gt", G(d - 1), G(d - 1)>>
G(d) == LET i == RE(1..14) k == RE(0..4) f == RE(Fs) IN
  IF d = 0 THEN (IF i = 1 THEN <<"err">> ELSE IF i < 7 THEN <<"x">> ELSE <<"n", k>>)
  ELSE CASE i < 3 -> <<RE(Op1 \ (IF k = 0 THEN {} ELSE {"arity", "parity"})), G(d - 1)>> [] i \in {3, 4, 5, 6} -> <<RE(OpF), IF f = "vh" /\ k > 1 THEN "vf" ELSE f, G(d - 1)>> [] i \in {7, 8, 9, 10} -> <<RE(Op2), G(d - 1), G(d - 1)>> [] i = 11 -> <<"when", GC(d - 1), G(d - 1)>>
         [] i = 12 -> <<"map", f, G(d - 1), G(d - 1)>> [] OTHER -> <<RE(Op3), GC(d - 1), G(d - 1), G(d - 1)>>
Random == RANDOM /\ \E d \in {RE(1..AST)}, j \in {RE(1..12)}, k \in {RE(0..4)} : \E e \in {G(d)} : a' = e /\
  steps' = steps \o (CASE j < 7 -> Profiled(e) [] j \in {7, 8} -> Scoped(e, k) [] j \in {9, 10} -> Caught(e) [] j = 11 -> Bad [] OTHER -> Together)
Next == Grow \/ Random
Spec == Init /\ [][Next]_vars
View == a
Bounded == TRUE
BoundedNext == TRUE
\* a caught error leaves the tree of what was done before it
Whole == Ev(<<"catch", a, <<"n", 1>>>>, 0).err = FALSE
EmitEdge == EmitSteps("e", steps')
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN EmitSteps("p", steps' \o Clean) ELSE TRUE
=============================================================================
