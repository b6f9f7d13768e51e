-------------------------------- MODULE Sorting -------------------------------
(* sort calls its function on elements of the list only, until one call fails, and *)
(* then fails; otherwise the result has the elements of the list in the order the   *)
(* function gives them. The list stays as it is.                                    *)
EXTENDS Emit, Integers, FiniteSets, SequencesExt
CONSTANTS RANDOM, DEPTH, MAXLEN
VARIABLES l, steps
vars == <<l, steps>>
RE(S) == RandomElement(S)
Q(src, e) == << <<src, e>> >>
Vals == 1..3
\* an element as it is written, printed, and how two are compared
Kinds == {"int", "float", "string", "pair", "frame"}
Elem(k, v) == CASE k = "int" -> Str(v * 11 - 20) [] k = "float" -> Str(v) \o ".5" [] k = "string" -> "\"" \o (CASE v = 1 -> "" [] v = 2 -> "ab" [] v % 3 = 0 -> "b" \o Str(v + 10) [] OTHER -> "ab" \o Str(v + 10)) \o "\""
               [] k = "pair" -> "(" \o Str(v) \o " q)" [] OTHER -> "{k: " \o Str(v) \o "}"
Shown(k, v) == Elem(k, v) \o (IF k = "float" THEN "f" ELSE "")
Made(k, v) == IF k = "pair" THEN "(list " \o Str(v) \o " 'q)" ELSE Elem(k, v)
Rank(k, v) == IF k # "string" THEN v ELSE IF v = 1 THEN 0 ELSE IF v = 2 THEN 1 ELSE IF v % 3 = 0 THEN 100 + v ELSE v
Less(k) == CASE k \in {"int", "float"} -> "(< a b)" [] k = "string" -> "(string<? a b)" [] k = "pair" -> "(< (car a) (car b))" [] OTHER -> "(< (k: a) (k: b))"
Src(k, s) == "(list" \o JoinWith(<<"">> \o [i \in 1..Len(s) |-> Made(k, s[i])], " ") \o ")"
Printed(k, s) == Paren([i \in 1..Len(s) |-> Shown(k, s[i])])
Sorted(k, s) == SortSeq(s, LAMBDA x, y : Rank(k, x) < Rank(k, y))
Has(s, v) == \E i \in 1..Len(s) : s[i] = v
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* plainly, and the other way round; the comparison sees only elements; a comparison that knows no order gives some order
Plain(k, s) == Q("(let ((l " \o Src(k, s) \o ")) (list (sort l (lambda (a b) " \o Less(k) \o ")) l))", Paren(<<Printed(k, Sorted(k, s)), Printed(k, s)>>))
Back(k, s) == Q("(let ((l " \o Src(k, s) \o ")) (list (sort l (lambda (b a) " \o Less(k) \o ")) l))", Paren(<<Printed(k, Rev(Sorted(k, s))), Printed(k, s)>>))
Seen(k, s) == Q("(let ((l " \o Src(k, s) \o ") (ok #t)) (let ((r (sort l (lambda (a b) (if (not (and (memv a l) (memv b l))) (set! ok 'other)) " \o Less(k) \o ")))) (list r ok)))", Paren(<<Printed(k, Sorted(k, s)), "#t">>))
Whatever(k, s, c) == Q("(let* ((l " \o Src(k, s) \o ") (r (sort l (lambda (a b) " \o c \o ")))) (list (sort r (lambda (a b) " \o Less(k) \o ")) l))", Paren(<<Printed(k, Sorted(k, s)), Printed(k, s)>>))
\* a comparison that fails when it is given the element v: no more calls
Fails(k, s, v, how) == LET hit == Len(s) > 1 /\ Has(s, v) IN
  Q("(let ((l " \o Src(k, s) \o ") (x " \o Made(k, v) \o ") (n 100)) (let ((r (on-error (sort l (lambda (a b) (set! n (+ n 1)) (if (or (equal? a x) (equal? b x)) (begin (set! n 0) " \o how \o ") " \o Less(k) \o "))) (lambda (e) 'failed)))) (list r (if (>= n 100) 'all n) l)))",
    Paren(<<IF hit THEN "failed" ELSE Printed(k, Sorted(k, s)), IF hit THEN "0" ELSE "all", Printed(k, s)>>))
Wrongs(k, s) == IF Len(s) < 2 THEN <<>> ELSE Q("(sort " \o Src(k, s) \o " (lambda (a) #t))", "!E") \o Q("(sort " \o Src(k, s) \o " (lambda (a b c) #t))", "!E") \o Q("(sort " \o Src(k, s) \o " car)", "!E")

Hows == {"(error \"no\")", "(car 1 2)"}
Prelude == Q("(begin (vclear) 1)", "1")
Init == l = <<>> /\ steps = Prelude
Grow == ~RANDOM /\ Len(l) < MAXLEN /\ \E v \in Vals : l' = Append(l, v) /\ UNCHANGED steps
Checks(k, s, v, how, c) == Plain(k, s) \o Back(k, s) \o Seen(k, s) \o Whatever(k, s, c) \o Fails(k, s, v, how) \o Wrongs(k, s)
Check == ~RANDOM /\ UNCHANGED l /\ \E k \in Kinds, v \in Vals, how \in Hows, c \in {"#f", "#t"} : steps' = steps \o Checks(k, l, v, how, c)
Many == RANDOM /\ \E n \in {RE({2, 5, 11, 13, 30, 60})}, k \in {RE(Kinds)}, v \in {RE(1..9)}, how \in {RE(Hows)}, c \in {RE({"#f", "#t", "(eqv? (random-byte) 3)"})} :
   \E s \in {[i \in 1..n |-> RE(1..9)]} : l' = s /\ steps' = steps \o Checks(k, s, v, how, c)
Next == Grow \/ Check \/ Many
Spec == Init /\ [][Next]_vars
\* ---- the design: nothing is lost and nothing is made up
Kept == \A k \in Kinds : LET r == Sorted(k, l) IN Len(r) = Len(l) /\ (\A v \in 1..9 : Cardinality({i \in 1..Len(l) : l[i] = v}) = Cardinality({i \in 1..Len(r) : r[i] = v})) /\ (\A i \in 1..(Len(r) - 1) : Rank(k, r[i]) <= Rank(k, r[i + 1]))
View == l
Bounded == TRUE
BoundedNext == TRUE
EmitEdge == RANDOM \/ steps' = steps \/ EmitSteps("e", steps')
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
