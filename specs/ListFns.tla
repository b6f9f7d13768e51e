------------------------------ MODULE ListFns ------------------------------
(* Every list function of the accessor and rearranging kind, on every small     *)
(* list and index; one operation never changes the list it is given.            *)
EXTENDS Lists

CONSTANTS MAXN,    \* length of the lists
          STYLES,  \* ways of building them
          NESTED,  \* element shapes 1..NESTED
          PARTS,   \* which groups of functions
          DEPTH, RANDOM
VARIABLES l, style, steps
vars == <<l, style, steps>>

Atom(i, k) == A(Str(i * 10 + k))
Shape(i, s) == CASE s = 1 -> Atom(i, 0) [] s = 2 -> Nil [] s = 3 -> L(<<Atom(i, 1)>>) [] s = 4 -> L(<<Atom(i, 1), Atom(i, 2)>>)
                 [] s = 5 -> L(<<L(<<Atom(i, 1)>>), Atom(i, 2)>>) [] s = 6 -> L(<<Nil, L(<<Nil>>)>>) [] s = 7 -> L(<<L(<<Atom(i, 1), L(<<Atom(i, 2), Nil, Atom(i, 3)>>)>>)>>)
                 [] s = 8 -> A("x")
Lists0 == UNION {{L([i \in 1..n |-> Shape(i, f[i])]) : f \in [1..n -> 1..NESTED]} : n \in 0..MAXN}
Flats == {L([i \in 1..n |-> Atom(i, 0)]) : n \in 4..11}
Define(v, k) == <<"(begin (define l " \o Built(v, k) \o ") (define m '(7 (8) 9)) 1)", "1">>
M == L(<<A("7"), L(<<A("8")>>), A("9")>>)
Init == IF RANDOM THEN l = Nil /\ style = 1 /\ steps = <<>>
        ELSE /\ style \in STYLES
             /\ l \in Lists0 \cup Flats
             /\ steps = <<Define(l, style)>>
Setup == /\ steps = <<>> /\ style' = RandomElement(STYLES)
         /\ \E n \in {RandomElement(0..12)} : l' = L([i \in 1..n |-> Shape(i, RandomElement(1..8))])
         /\ steps' = <<Define(l', style')>>
Pick(S) == IF RANDOM THEN {RandomElement(S)} ELSE S      \* in random behaviours one choice
Q(src, exp) == /\ steps # <<>> /\ steps' = Append(steps, <<src, exp>>) /\ UNCHANGED <<l, style>>
V(src, v) == Q(src, P(v))
\* a position outside the list: nil or an error, never an element
In(src, r) == Q(src, IF r[1] = "in" THEN P(r[2]) ELSE "?|()||!E")

RECURSIVE Paths(_)
Paths(n) == IF n = 0 THEN {<<>>} ELSE {<<x>> \o p : x \in {"a", "d"}, p \in Paths(n - 1)}
\* mostly down the list
RPath(n) == [i \in 1..n |-> IF RandomElement(1..4) = 1 THEN "a" ELSE "d"]
\* the number whose bits name the path, for general-car-cdr
RECURSIVE Code(_)
Code(path) == IF path = <<>> THEN 1 ELSE 2 * Code(SubSeq(path, 1, Len(path) - 1)) + (IF path[Len(path)] = "a" THEN 1 ELSE 0)
Names == <<"first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "ninth", "tenth">>
Idx == -2..(NEls(l) + 2)

Access ==
  \/ \E n \in Pick(1..4) : \E p \in Pick(Paths(n)) : In("(c" \o JoinWith(p, "") \o "r l)", Cxr(l, p))
  \/ \E n \in IF RANDOM THEN {RandomElement(0..12)} ELSE 0..5 : \E p \in IF RANDOM THEN {RPath(n)} ELSE Paths(n) : In("(general-car-cdr l " \o Str(Code(p)) \o ")", Cxr(l, p))
  \/ \E i \in Pick(1..10) : In("(" \o Names[i] \o " l)", NthV(l, i))
  \/ In("(head l)", NthV(l, 1))
  \/ \E f \in {"tail", "rest"} : l # Nil /\ V("(" \o f \o " l)", Cdr(l))
  \/ \E i \in Pick(Idx) : \/ In("(nth l " \o Str(i) \o ")", NthV(l, i)) \/ In("(list-ref l " \o Str(i) \o ")", NthV(l, i + 1))
  \/ IF l = Nil THEN Q("(last-pair l)", "!E") ELSE V("(last-pair l)", LastPair(l))
  \/ V("(length l)", A(Str(NEls(l))))
Cut ==
  \/ \E i \in Pick(Idx) : IF i < 0 THEN \E f \in {"(take -1 l)", "(list-head l -1)"} : Q(f, "?|()||!E")
                    ELSE \/ V("(take " \o Str(i) \o " l)", HeadV(l, i)) \/ V("(drop " \o Str(i) \o " l)", TailV(l, i))
                         \/ (i <= NEls(l) /\ (V("(list-head l " \o Str(i) \o ")", HeadV(l, i)) \/ V("(list-tail l " \o Str(i) \o ")", TailV(l, i))))
                         \/ (i > NEls(l) /\ (Q("(list-head l " \o Str(i) \o ")", "?|!E||" \o P(l)) \/ Q("(list-tail l " \o Str(i) \o ")", "?|!E||()")))
  \/ \E i \in Pick(Idx), j \in Pick(Idx) : LET src == "(sublist l " \o Str(i) \o " " \o Str(j) \o ")" IN IF i <= 0 \/ j <= 0 THEN Q(src, "!E") ELSE V(src, SubV(l, i, j))
  \/ \E n \in Pick(1..(NEls(l) + 1)) : V("(partition " \o Str(n) \o " l)", L(Chunks(Els(l), n)))
  \/ \E n \in {0, -1} : Q("(partition " \o Str(n) \o " l)", "!E")
Arrange ==
  \/ V("(reverse l)", Rev(l)) \/ V("(reverse (reverse l))", l)
  \/ V("(flatten l)", Flat(l)) \/ V("(flatten* l)", FlatStar(l))
  \/ V("(copy l)", l)
  \/ V("(append l)", l) \/ V("(append l l)", L(Els(l) \o Els(l))) \/ V("(append l '() l)", L(Els(l) \o Els(l))) \/ V("(append l m)", L(Els(l) \o Els(M))) \/ V("(append m l)", L(Els(M) \o Els(l)))
  \/ V("(append '() l '(1 2) l)", L(Els(l) \o <<A("1"), A("2")>> \o Els(l))) \/ V("(append)", Nil) \/ V("(append l 5)", L(Els(l) \o <<A("5")>>))
  \/ V("(cons 5 l)", Cons(A("5"), l)) \/ V("(cons l l)", Cons(l, l)) \/ V("(cons '() l)", Cons(Nil, l))
  \/ V("(list l l)", L(<<l, l>>)) \/ V("(cons* 1 l)", Cons(A("1"), l)) \/ V("(cons* l)", l) \/ V("(cons* 1 '(2) l)", Cons(A("1"), Cons(L(<<A("2")>>), l))) \/ V("(cons* l m l)", Cons(l, Cons(M, l)))
  \/ \E n \in 0..3 : V("(make-list " \o Str(n) \o " l)", L([i \in 1..n |-> l])) \/ V("(length (make-list " \o Str(n) \o "))", A(Str(n)))
  \/ \E x \in Pick({El(l, i) : i \in 1..NEls(l)} \cup {A("99"), Nil}) : \E f \in {"memq", "memv", "member"} : V("(" \o f \o " " \o Datum(x) \o " l)", MemTail(x, Els(l)))
  \/ \E i \in {1, 2, 3} : V("(let ((k (list 5 1 9 " \o Str(i * 2) \o "))) (sort k <) k)", L(<<A("5"), A("1"), A("9"), A(Str(i * 2))>>))
  \/ \E f \in Pick({"(take 2 l)", "(reverse l)", "(flatten l)", "(flatten* l)", "(append l l)", "(sublist l 1 3)", "(map car (partition 1 l))", "(list-tail l 0)", "(copy l)", "(drop 1 l)"}) : V("(begin " \o f \o " l)", l)
\* lists with repeated elements, built from a number
Digits(n) == [i \in 1..6 |-> ((n \div (CASE i = 1 -> 1 [] i = 2 -> 4 [] i = 3 -> 16 [] i = 4 -> 64 [] i = 5 -> 256 [] i = 6 -> 1024)) % 4) * (IF i % 2 = 0 THEN 3 ELSE 2) - 4]
Ints(s) == L([i \in 1..Len(s) |-> A(Str(s[i]))])
SortIt ==
  /\ l = Nil
  /\ \/ \E n \in IF RANDOM THEN {RandomElement(0..4095)} ELSE {k * 37 : k \in 0..60}, k \in Pick(0..6) :
          LET s == SubSeq(Digits(n), 1, k) IN
          \/ \E f \in {"<", "(lambda (a b) (< a b))"} : V("(sort " \o Datum(Ints(s)) \o " " \o f \o ")", Ints(SortInts(s)))
          \/ \E f \in {">", "(lambda (a b) (> a b))"} : V("(sort " \o Datum(Ints(s)) \o " " \o f \o ")", Rev(Ints(SortInts(s))))
          \/ V("(map car (sort (map list " \o Datum(Ints(s)) \o ") (lambda (a b) (< (car a) (car b)))))", Ints(SortInts(s)))
     \/ \E n \in IF RANDOM THEN {RandomElement(1..4095)} ELSE {} :
          LET s == [i \in 1..36 |-> Digits(n + i * 41)[1 + (i % 6)] * 7 + (i % 3)] IN V("(sort " \o Datum(Ints(s)) \o " <)", Ints(SortInts(s)))
     \/ V("(sort '(\"b\" \"a\" \"c\") string<?)", L(<<A("\"a\""), A("\"b\""), A("\"c\"")>>))
     \/ Q("(sort '(3 1 2) (lambda (a b) (error \"no\")))", "!E") \/ Q("(sort '(3 1 \"a\") <)", "!E") \/ Q("(sort 5 <)", "!E") \/ Q("(sort '(1 2) 5)", "!E")
IntervalIt ==
  /\ l = Nil
  /\ \E lo \in Pick(-4..5) : \/ V("(interval " \o Str(lo) \o ")", Ints(Range(1, lo, 1)))
                       \/ \E hi \in Pick(-4..5) : \/ V("(interval " \o Str(lo) \o " " \o Str(hi) \o ")", Ints(Range(lo, hi, IF lo <= hi THEN 1 ELSE -1)))
                                            \/ \E st \in Pick(-3..3) : LET src == "(interval " \o Str(lo) \o " " \o Str(hi) \o " " \o Str(st) \o ")" IN
                                                 IF (lo <= hi /\ st > 0) \/ (lo > hi /\ st < 0) THEN V(src, Ints(Range(lo, hi, st))) ELSE Q(src, "!E")
Wrong ==
  /\ l = Nil
  /\ \/ \E f \in {"nth", "list-ref", "list-head", "list-tail"} : \E x \in {"5", "\"abc\"", "'a", "{a: 1}"} : Q("(" \o f \o " " \o x \o " 1)", "!E")
     \/ \E f \in {"nth", "list-ref", "list-head", "list-tail"} : \E x \in {"\"1\"", "1.0", "'a", "'(1)"} : Q("(" \o f \o " m " \o x \o ")", "!E")
     \/ \E f \in {"take", "drop"} : \E x \in {"5", "\"abc\"", "'a", "{a: 1}"} : Q("(" \o f \o " 1 " \o x \o ")", "!E")
     \/ \E f \in {"take", "drop"} : \E x \in {"\"1\"", "1.0", "'a", "'(1)"} : Q("(" \o f \o " " \o x \o " m)", "!E")
     \/ \E x \in {"5", "\"abc\"", "'a"} : Q("(sublist " \o x \o " 1 2)", "!E") \/ Q("(partition 2 " \o x \o ")", "!E") \/ Q("(last-pair " \o x \o ")", "!E")
     \/ \E x \in {"\"1\"", "1.5", "'a"} : Q("(sublist m " \o x \o " 2)", "!E") \/ Q("(sublist m 1 " \o x \o ")", "!E") \/ Q("(partition " \o x \o " m)", "!E") \/ Q("(make-list " \o x \o ")", "!E")
     \/ Q("(make-list -1)", "!E") \/ Q("(general-car-cdr m 0)", "!E")
\* a full tree of pairs: every path leads somewhere else
RECURSIVE Tree(_, _)
Tree(n, k) == IF n = 0 THEN Str(k) ELSE "(" \o Tree(n - 1, 2 * k) \o " . " \o Tree(n - 1, 2 * k + 1) \o ")"
RECURSIVE Leaf(_)
Leaf(p) == IF p = <<>> THEN 1 ELSE LET k == Leaf(Tail(p)) IN IF p[1] = "a" THEN 2 * k ELSE 2 * k + 1
InTree == (RANDOM \/ l = Nil) /\ \E n \in Pick(1..4) : \E p \in Pick(Paths(n)) : \E f \in Pick(1..2) :
  Q("(equal? " \o (IF f = 1 THEN "(c" \o JoinWith(p, "") \o "r '" \o Tree(4, 1) \o ")" ELSE "(general-car-cdr '" \o Tree(4, 1) \o " " \o Str(Code(p)) \o ")") \o " '" \o Tree(4 - n, Leaf(p)) \o ")", "#t")
Next == \/ Setup
        \/ "access" \in PARTS /\ InTree
        \/ "access" \in PARTS /\ Access
        \/ "cut" \in PARTS /\ Cut
        \/ "arrange" \in PARTS /\ Arrange
        \/ "misc" \in PARTS /\ (SortIt \/ IntervalIt \/ Wrong)
Spec == Init /\ [][Next]_vars
\* ---- the design
Laws == /\ Rev(Rev(l)) = l
        /\ \A n \in 0..NEls(l) : L(Els(HeadV(l, n)) \o Els(TailV(l, n))) = l
        /\ \A i \in 1..NEls(l) : El(Rev(l), i) = El(l, NEls(l) + 1 - i)
        /\ FlatStar(FlatStar(l)) = FlatStar(l)
        /\ \A n \in 1..4 : L(Cat(Chunks(Els(l), n))) = l
View == <<l, style>>
Intact == << <<"(list l m)", P(L(<<l', M>>))>> >>
Bounded == Len(steps) < 1 + DEPTH
BoundedNext == Len(steps') < 1 + DEPTH
EmitEdge == EmitSteps("e", steps' \o Intact)
EmitPath == IF Len(steps') = 1 + DEPTH THEN EmitSteps("p", steps' \o Intact) ELSE TRUE
=============================================================================
