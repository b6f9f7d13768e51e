------------------------------- MODULE SetFns -------------------------------
(* union, intersection and complement of up to three lists without repeated     *)
(* elements; elements of all kinds, compared structurally.                      *)
EXTENDS Lists, FiniteSets
CONSTANTS N,        \* elements 1..N of the universe
          NL,       \* number of lists
          DEPTH, RANDOM
VARIABLES ls, steps
vars == <<ls, steps>>
U == <<A("1"), A("b"), L(<<A("1"), A("2")>>), A("\"b\""), Nil, A("#f"), <<"f", "1.5">>, L(<<A("1"), L(<<A("2")>>)>>), A("#t"), A("k:")>>
\* lists as subsets; in random mode in random order
RECURSIVE Perm(_)
Perm(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o Perm(S \ {x})
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Asc(S \ {x})
Rot(s, k) == IF s = <<>> THEN s ELSE LET r == k % Len(s) IN SubSeq(s, r + 1, Len(s)) \o SubSeq(s, 1, r)
Val(s) == L([i \in 1..Len(s) |-> U[s[i]]])
Names == <<"x", "y", "z">>
Start(q) == << <<"(begin " \o JoinWith([i \in 1..NL |-> "(define " \o Names[i] \o " " \o Built(Val(q[i]), i) \o ")"], " ") \o " 1)", "1">> >>
Init == IF RANDOM THEN ls = <<>> /\ steps = <<>>
        ELSE ls \in {[i \in 1..NL |-> Rot(Asc(f[i]), i - 1)] : f \in [1..NL -> SUBSET (1..N)]} /\ steps = Start(ls)
Setup == /\ steps = <<>> /\ \E x \in {1} : ls' = [i \in 1..NL |-> Perm({e \in 1..N : RandomElement(1..2) = 1})]
         /\ steps' = Start(ls')
Elems(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE UnionOf(_, _)
UnionOf(acc, qs) == IF qs = <<>> THEN acc ELSE UnionOf(acc \o SelectSeq(qs[1], LAMBDA e : e \notin Elems(acc)), Tail(qs))
Rest(qs) == Tail(qs)
InterOf(qs) == SelectSeq(qs[1], LAMBDA e : \A i \in 2..Len(qs) : e \in Elems(qs[i]))
CompOf(qs) == SelectSeq(qs[1], LAMBDA e : \A i \in 2..Len(qs) : e \notin Elems(qs[i]))
Intact == <<Call("list", [i \in 1..NL |-> Names[i]]), P(L([i \in 1..NL |-> Val(ls[i])]))>>
Q(src, exp) == steps # <<>> /\ UNCHANGED ls /\ steps' = steps \o << <<src, exp>>, Intact>>
Pick(S) == IF RANDOM THEN {RandomElement(S)} ELSE S
Tuples == UNION {[1..k -> 1..NL] : k \in 1..3}
Next == \/ Setup
        \/ steps # <<>> /\ \E t \in Pick(Tuples) : LET qs == [i \in 1..Len(t) |-> ls[t[i]]]
                               args == [i \in 1..Len(t) |-> Names[t[i]]]
                           IN \/ Q(Call("union", args), P(Val(UnionOf(<<>>, qs)))) \/ Q(Call("intersection", args), P(Val(InterOf(qs)))) \/ Q(Call("complement", args), P(Val(CompOf(qs))))
        \/ steps # <<>> /\ \E f \in Pick({"union", "intersection", "complement"}), b \in Pick({"5", "\"ab\"", "'q", "[1]", "{a: 1}"}) : Q("(" \o f \o " x " \o b \o ")", "!E") \/ Q("(" \o f \o " " \o b \o " x)", "!E") \/ Q("(" \o f \o " x x " \o b \o ")", "!E")
        \* lists with repeated elements: the same set, whatever the multiplicity
        \/ steps # <<>> /\ \E f \in Pick({"union", "intersection", "complement"}), e \in Pick(1..N) :
             LET r == CASE f = "union" -> UnionOf(<<>>, <<ls[1], ls[2]>>) [] f = "intersection" -> InterOf(<<ls[1], ls[2]>>) [] f = "complement" -> CompOf(<<ls[1], ls[2]>>)
             IN Q("(let ((r (" \o f \o " (append x x) (append y y)))) (if (member " \o Datum(U[e]) \o " r) #t #f))", Bool(e \in Elems(r)))
Spec == Init /\ [][Next]_vars
\* ---- the design: the algebra of sets
Laws == ls = <<>> \/ LET x == ls[1] y == ls[2] IN
        /\ Elems(UnionOf(<<>>, <<x, y>>)) = Elems(x) \cup Elems(y)
        /\ Elems(InterOf(<<x, y>>)) = Elems(x) \cap Elems(y)
        /\ Elems(CompOf(<<x, y>>)) = Elems(x) \ Elems(y)
View == ls
Bounded == Len(steps) < 1 + DEPTH
BoundedNext == Len(steps') < 1 + DEPTH
EmitEdge == EmitSteps("e", steps')
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
