------------------------------- MODULE FrameEq ------------------------------
(* Equality and copying of frames that refer to each other and to themselves:  *)
(* two frames are equal when nothing that can be reached from them differs.    *)
EXTENDS Emit, Integers, FiniteSets
CONSTANTS N, DEPTH
VARIABLES g, steps
vars == <<g, steps>>
\* each frame: a data slot and a link slot that holds no value (0) or a frame
Init == /\ g \in [1..N -> [v : {1, 2}, p : 0..N]]
        /\ steps = << <<"(begin " \o JoinWith([i \in 1..N |-> "(define g" \o Str(i) \o " {v: " \o Str(g[i].v) \o "})"], " ") \o " "
                        \o JoinWith([i \in 1..N |-> IF g[i].p = 0 THEN "1" ELSE "(set-slot! g" \o Str(i) \o (IF i % 2 = 1 THEN " p*: g" ELSE " p*: g") \o Str(g[i].p) \o ")"], " ") \o " 1)", "1">> >>
RECURSIVE Shrink(_)
Shrink(R) == LET S == {r \in R : LET a == g[r[1]] b == g[r[2]] IN a.v = b.v /\ (a.p = 0) = (b.p = 0) /\ (a.p # 0 => <<a.p, b.p>> \in R)}
             IN IF S = R THEN R ELSE Shrink(S)
Equal == Shrink((1..N) \X (1..N))
Q(s, e) == UNCHANGED g /\ steps' = steps \o << <<s, e>> >>
F(i) == "g" \o Str(i)
Next == \/ \E i, j \in 1..N : Q("(list (equal? " \o F(i) \o " " \o F(j) \o ") (eq? (list " \o F(j) \o ") (list " \o F(i) \o ")) (!= " \o F(i) \o " " \o F(j) \o "))",
                                Paren(<<Bool(<<i, j>> \in Equal), Bool(<<i, j>> \in Equal), Bool(<<i, j>> \notin Equal)>>))
        \/ \E i, j \in 1..N : Q("(let ((c (copy " \o F(i) \o "))) (list (equal? c " \o F(j) \o ") (equal? c c) (v: c)))", Paren(<<Bool(<<i, j>> \in Equal), "#t", Str(g[i].v)>>))
        \* nothing of the copy is shared: a change of what it links to is not seen in the original
        \/ \E i, j \in 1..N : g[i].p # 0 /\ Q("(let ((c (copy " \o F(i) \o "))) (set-slot! (p*: c) v: 9) (set-slot! c v: 8) (list (v: " \o F(j) \o ") (v: (p*: " \o F(i) \o ")) (v: c)))", Paren(<<Str(g[j].v), Str(g[g[i].p].v), "8">>))
Spec == Init /\ [][Next]_vars
\* ---- design: an equivalence
Equivalence == LET R == Equal IN /\ \A i \in 1..N : <<i, i>> \in R
                                 /\ \A r \in R : <<r[2], r[1]>> \in R
                                 /\ \A r, s \in R : r[2] = s[1] => <<r[1], s[2]>> \in R
View == g
BoundedNext == Len(steps') <= 1 + DEPTH
EmitEdge == EmitSteps("e", steps')
=============================================================================
