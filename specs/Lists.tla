------------------------------- MODULE Lists -------------------------------
(* Lists as values: <<"a", text>> is an atom (<<"f", text>> a float), <<"l", x1, ..., xn>> a list.      *)
(* The defined results of the functions that select from and rearrange lists.   *)
EXTENDS Emit, Integers

A(t) == <<"a", t>>
L(xs) == <<"l">> \o xs
Nil == <<"l">>
IsL(v) == v[1] = "l"
Els(v) == Tail(v)
NEls(v) == Len(v) - 1
El(v, i) == v[i + 1]               \* 1-based
TF(b) == A(IF b THEN "#t" ELSE "#f")
RECURSIVE P(_)
P(v) == IF v[1] = "a" THEN v[2] ELSE IF v[1] = "f" THEN v[2] \o "f" ELSE Paren([i \in 1..NEls(v) |-> P(El(v, i))])

Car(v) == IF v = Nil THEN Nil ELSE El(v, 1)
Cdr(v) == IF v = Nil THEN Nil ELSE L(Tail(Els(v)))
Cons(x, v) == L(<<x>> \o Els(v))
\* c[ad]*r, the last letter first; "out" outside the list
RECURSIVE Cxr(_, _)
Cxr(v, path) ==
  IF path = <<>> THEN <<"in", v>>
  ELSE LET n == Len(path) IN
       IF ~IsL(v) \/ v = Nil THEN <<"out">>
       ELSE Cxr(IF path[n] = "a" THEN Car(v) ELSE Cdr(v), SubSeq(path, 1, n - 1))
NthV(v, i) == IF i >= 1 /\ i <= NEls(v) THEN <<"in", El(v, i)>> ELSE <<"out">>
Rev(v) == L([i \in 1..NEls(v) |-> El(v, NEls(v) + 1 - i)])
RECURSIVE Cat(_)
Cat(vs) == IF vs = <<>> THEN <<>> ELSE (IF IsL(vs[1]) THEN Els(vs[1]) ELSE <<vs[1]>>) \o Cat(Tail(vs))
Flat(v) == L(Cat(Els(v)))
RECURSIVE FlatStar(_)
FlatStar(v) == L(Cat([i \in 1..NEls(v) |-> IF IsL(El(v, i)) THEN FlatStar(El(v, i)) ELSE El(v, i)]))
Clip(n, v) == IF n < 0 THEN 0 ELSE IF n > NEls(v) THEN NEls(v) ELSE n
HeadV(v, n) == L(SubSeq(Els(v), 1, Clip(n, v)))
TailV(v, n) == L(SubSeq(Els(v), Clip(n, v) + 1, NEls(v)))
SubV(v, i, j) == IF i >= j THEN Nil ELSE L(SubSeq(Els(v), i, Clip(j - 1, v)))
LastPair(v) == L(<<El(v, NEls(v))>>)
RECURSIVE Chunks(_, _)
Chunks(s, n) == IF s = <<>> THEN <<>> ELSE IF Len(s) <= n THEN <<L(s)>> ELSE <<L(SubSeq(s, 1, n))>> \o Chunks(SubSeq(s, n + 1, Len(s)), n)
RECURSIVE MemTail(_, _)
MemTail(x, s) == IF s = <<>> THEN A("#f") ELSE IF s[1] = x THEN L(s) ELSE MemTail(x, Tail(s))
RECURSIVE SortInts(_)
Insert(x, s) == LET k == Len(SelectSeq(s, LAMBDA y : y <= x)) IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
SortInts(s) == IF s = <<>> THEN <<>> ELSE Insert(s[1], SortInts(Tail(s)))
RECURSIVE Range(_, _, _)
Range(i, hi, step) == IF (step > 0 /\ i > hi) \/ (step < 0 /\ i < hi) THEN <<>> ELSE <<i>> \o Range(i + step, hi, step)

\* ---- the ways of building a list
RECURSIVE Sc(_)
Sc(v) == IF v[1] # "l" THEN v[2] ELSE Paren([i \in 1..NEls(v) |-> Sc(El(v, i))])
Datum(v) == "'" \o Sc(v)
RECURSIVE Built(_, _)
Built(v, style) ==
  IF ~IsL(v) THEN Datum(v)
  ELSE CASE style = 1 -> Datum(v)
         [] style = 2 -> Call("list", [i \in 1..NEls(v) |-> Built(El(v, i), 2)])
         [] style = 3 -> IF v = Nil THEN "'()" ELSE "(cons " \o Built(Car(v), 3) \o " " \o Built(Cdr(v), 3) \o ")"
         [] style = 4 -> "(reverse " \o Call("list", [i \in 1..NEls(v) |-> Built(El(Rev(v), i), 4)]) \o ")"
         [] style = 5 -> "((lambda (z . r) r) 0" \o (IF v = Nil THEN "" ELSE " ") \o JoinWith([i \in 1..NEls(v) |-> Built(El(v, i), 5)], " ") \o ")"
         [] style = 6 -> "`" \o Paren([i \in 1..NEls(v) |-> "," \o Built(El(v, i), 2)])
         [] style = 7 -> "(append " \o Datum(HeadV(v, 1)) \o " " \o Built(TailV(v, 1), 2) \o ")"
         [] style = 8 -> "(map (lambda (x) x) " \o Datum(v) \o ")"
=============================================================================
