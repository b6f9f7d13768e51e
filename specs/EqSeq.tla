------------------------------- MODULE EqSeq --------------------------------
(* Equality: every comparison, and everything that searches by comparing, for  *)
(* all pairs of a family of values built in different ways.                     *)
EXTENDS Values
CONSTANTS POOL,      \* which values the exhaustive part compares: "small", "pairs", "mixed"
          DEPTH, RANDOM
VARIABLES a, b, ya, yb, steps
vars == <<a, b, ya, yb, steps>>

Objs == <<"f1", "f2", "e1", "c1", "c2", "m1", "car", "cdr", "at1">>
Prelude == <<"(begin (define f1 (lambda (x) x)) (define f2 (lambda (x) x)) (define e1 (let ((q 1)) (procedure-environment (lambda () q)))) (define c1 (make-channel 1)) (define c2 (make-channel 1)) (defmacro (m1 x) x) (define at1 (atomic 1)) 1)", "1">>
Ints == {"0", "1", "-1", "16777216", "16777217", "9007199254740992", "9007199254740993", "9223372036854775807", "-9223372036854775808", "255"}
Atoms == {VNil, VI("1"), VI("0"), VF("1.0"), VF("1.5"), VS("a"), VS(""), VY("a"), VY("a:"), VB("#t"), VB("#f"), VBytes(<<>>), VBytes(<<1, 2>>), VObj("f1"), VObj("car")}
FewAtoms == {VNil, VI("1"), VY("a"), VS("a"), VB("#f")}
MoreAtoms == Atoms \cup {VI(t) : t \in Ints} \cup {VF("0.1"), VF("-1.5"), VF("16777216.0"), VF("0.0"), VS("A"), VS("b"), VS("a b"), VS("1"), VY("A"), VY("b"), VY("a1"), VY("b:"), VY("nil"), VY("+"), VBytes(<<1>>), VBytes(<<2, 1>>), VBytes(<<1, 2, 3>>), VBytes(<<97>>)} \cup {VObj(Objs[i]) : i \in 1..Len(Objs)}
Frames1(S) == {VFrame(<<>>)} \cup {VFrame(<< <<"a:", x>> >>) : x \in S} \cup {VFrame(<< <<"b:", x>> >>) : x \in S} \cup {VFrame(<< <<"a:", x>>, <<"b:", y>> >>) : x, y \in S}
Alists1(S) == {VAlist(<< <<VY("a"), x>> >>) : x \in S} \cup {VAlist(<< <<VY("a"), x>>, <<VY("b"), y>> >>) : x, y \in S} \cup {VAlist(<< <<VY("b"), x>>, <<VY("a"), y>> >>) : x, y \in S}
Pairs1(S, R) == {VC(x, y) : x \in S, y \in R}
ListsTo3(S) == {VList(<<>>)} \cup {VList(<<x>>) : x \in S} \cup {VList(<<x, y>>) : x, y \in S} \cup {VList(<<x, y, z>>) : x, y, z \in S}
Small3 == {VI("1"), VY("a"), VNil}
PoolOf(p) == CASE p = "atoms" -> MoreAtoms
               [] p = "small" -> Atoms \cup Frames1({VI("1"), VNil}) \cup Pairs1(FewAtoms, FewAtoms) \cup Alists1({VI("1"), VS("a")})
               [] p = "pairs" -> LET P1 == Pairs1(Small3, Small3) IN P1 \cup Pairs1(P1, Small3) \cup Pairs1({VI("1")}, P1) \cup Pairs1({VY("a")}, P1)
               [] p = "lists" -> ListsTo3({VI("1"), VI("2"), VF("1.0"), VY("a")}) \cup Pairs1({VI("1")}, Pairs1({VI("1"), VI("2")}, {VI("1"), VI("2")}))
               [] p = "mixed" -> LET S == {VI("1"), VNil, VBytes(<<1>>), VList(<<VI("1")>>), VFrame(<< <<"a:", VI("1")>> >>), VAlist(<< <<VY("a"), VI("1")>> >>)} IN
                                 Frames1(S) \cup Alists1(S) \cup ListsTo3(S) \cup Pairs1(S, S) \cup {VList(<<VC(VY("a"), x), VC(VY("b"), y)>>) : x, y \in S} \cup {VList(<<VC(VY("a"), x), VC(VY("a"), y)>>) : x, y \in S}

\* ---- random values
RE(S) == RandomElement(S)
RECURSIVE Rnd(_)
RKeys == << <<"a:">>, <<"b:">>, <<"a:", "b:">>, <<"a:", "c:">>, <<"a:", "b:", "c:">>, <<>> >>
Rnd(d) == LET k == IF d = 0 THEN 1 ELSE RE(1..9) IN
  CASE k <= 2 -> RE(MoreAtoms)
    [] k \in 3..4 -> VC(Rnd(d - 1), Rnd(d - 1))
    [] k \in 5..6 -> LET n == RE(0..4) IN VList([i \in 1..n |-> Rnd(d - 1)])
    [] k = 7 -> LET ks == RKeys[RE(1..6)] IN VFrame([i \in 1..Len(ks) |-> <<ks[i], Rnd(d - 1)>>])
    [] k = 8 -> LET n == RE(1..3) IN VAlist([i \in 1..n |-> << <<VY("a"), VI("1"), VS("k")>>[i], Rnd(d - 1)>>])
    [] k = 9 -> VBytes([i \in 1..RE(0..3) |-> RE({0, 1, 255})])
\* a copy with one place changed
RECURSIVE Mut(_)
MutIn(s) == IF s = <<>> THEN s ELSE LET i == RE(1..Len(s)) IN [s EXCEPT ![i] = <<s[i][1], Mut(s[i][2])>>]
Mut(v) == LET k == RE(1..4) IN
  CASE T(v) = "c" /\ k <= 2 -> VC(Mut(v[2]), v[3])
    [] T(v) = "c" /\ k = 3 -> VC(v[2], Mut(v[3]))
    [] T(v) = "F" /\ k <= 3 -> VFrame(MutIn(v[2]))
    [] T(v) = "A" /\ k <= 2 -> VAlist(MutIn(v[2]))
    [] T(v) = "A" /\ k = 3 -> VAlist(Rvs(v[2]))
    [] T(v) = "B" /\ k <= 3 /\ v[2] # <<>> -> VBytes([v[2] EXCEPT ![1] = (@ + 1) % 256])
    [] OTHER -> Rnd(1)
\* an alist with the same map but as a list
Listed(v) == IF T(v) = "A" THEN VList([i \in 1..Len(v[2]) |-> VC(v[2][i][1], v[2][i][2])]) ELSE v

Start(x, y, s, t) == <<Prelude, <<"(begin (define x " \o Make(x, s) \o ") (define y " \o Make(y, t) \o ") 1)", "1">> >>
Init == IF RANDOM THEN a = VNil /\ b = VNil /\ ya = 1 /\ yb = 1 /\ steps = <<>>
        ELSE /\ a \in PoolOf(POOL) /\ b \in PoolOf(POOL) /\ ya = 1 /\ yb \in {2, 3, 4} /\ (yb # 2 => POOL \in {"atoms", "small"})
             /\ steps = Start(a, b, ya, yb)
Setup == /\ RANDOM /\ Len(steps) < DEPTH
         /\ \E x \in {Rnd(4)}, k \in {RE(1..6)} :
              \E y \in {CASE k <= 2 -> x [] k \in 3..4 -> Mut(x) [] k = 5 -> Listed(x) [] k = 6 -> Rnd(3)}, s \in {RE(1..4)}, t \in {RE(1..4)} :
                /\ a' = x /\ b' = y /\ ya' = s /\ yb' = t
                /\ LET e == Same(x, y) IN
                   steps' = (IF steps = <<>> THEN <<Prelude>> ELSE steps) \o <<Start(x, y, s, t)[2],
                      <<"(list (eq? x y) (eq? y x) (eqv? x y) (equal? y x) (== x y) (!= x y) (neq? y x) (eq? x x) (equal? (copy x) x) (equal? y (copy y)))", Paren(<<Bool(e), Bool(e), Bool(e), Bool(e), Bool(e), Bool(~e), Bool(~e), "#t", "#t", "#t">>)>> >>
Q(src, exp) == UNCHANGED <<a, b, ya, yb>> /\ steps' = steps \o << <<src, exp>> >>
E == Same(a, b)
Compare == Q("(list (eq? x y) (eq? y x) (eqv? x y) (eqv? y x) (equal? x y) (equal? y x) (== x y) (== y x) (!= x y) (!= y x) (neq? x y) (eq? x x) (equal? y y))",
             Paren(<<Bool(E), Bool(E), Bool(E), Bool(E), Bool(E), Bool(E), Bool(E), Bool(E), Bool(~E), Bool(~E), Bool(~E), "#t", "#t">>))
Copies == Q("(list (equal? (copy x) x) (equal? y (copy y)) (equal? (copy x) y) (equal? (list 1 x) (list 1 y)) (equal? (cons x 1) (cons y 1)) (equal? (cons 0 (cons 1 x)) (cons 0 (cons 1 y))))",
            Paren(<<"#t", "#t", Bool(E), Bool(E), Bool(E), Bool(E)>>))
\* what searches by comparing (nothing that holds an element is given () to find)
Search == Q("(list (if (member x (list 'q1 y)) #t #f) (if (memq y (list 'q1 x 'q2)) #t #f) (if (memv x (list y)) #t #f) (length (union (list x) (list y))) (length (intersection (list x) (list y))) (length (complement (list x) (list y))))",
            Paren(<<Bool(E), Bool(E), Bool(E), IF E THEN "1" ELSE "2", IF E THEN "1" ELSE "0", IF E THEN "0" ELSE "1">>))
Keyed == Q("(list (if (nil? (assoc x (list (cons 'q1 1) (cons y 2)))) #f #t) (if (nil? (rassoc y (list (cons 'q1 'q2) (cons 'q3 x)))) #f #t))",
            Paren(<<Bool(E), Bool(E)>>))
Wrapped == Q("(list (equal? {s: x} {s: y}) (equal? (alist (list (cons 'k x))) (alist (list (cons 'k y)))) (equal? (list (list x)) (list (list y))))", Paren(<<Bool(E), Bool(E), Bool(E)>>))
Next == Setup \/ (~RANDOM /\ (Compare \/ Copies \/ Search \/ Keyed \/ Wrapped))
Spec == Init /\ [][Next]_vars
\* ---- the design: an equivalence (over values without alists also transitive), and a congruence
Reflexive == Same(a, a)
Symmetric == Same(a, b) = Same(b, a)
Congruent == Same(VC(a, VNil), VC(b, VNil)) = Same(a, b)
\* alists and lists of pairs aside, transitive
Transitive == POOL # "pairs" \/ ~Same(a, b) \/ \A c \in PoolOf(POOL) : Same(b, c) => Same(a, c)
View == <<a, b, ya, yb>>
Bounded == Len(steps) < 2 + DEPTH
BoundedNext == Len(steps') <= 2 + DEPTH
EmitEdge == EmitSteps("e", steps')
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
