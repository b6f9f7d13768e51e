------------------------------ MODULE ByteSeq ------------------------------
(* Bytearrays: places (variables, a frame slot, an element of a list) that      *)
(* refer to arrays, in every aliasing pattern.  Every operation is followed by  *)
(* a look at all places and at which of them hold the same array.               *)
EXTENDS Emit, Integers, FiniteSets

CONSTANTS NP,      \* places 1..NP (at most 6)
          MAXLEN,  \* length of the arrays to start from
          BYTES,   \* bytes that occur in them
          IDX,     \* indices and counts tried
          DEPTH, MISUSE, ANYINIT,
          RANDOM   \* one random choice of each kind at a time
VARIABLES at,      \* place -> array
          heap,    \* array -> bytes
          steps
vars == <<at, heap, steps>>
Pl == 1..NP
Objs == 1..(NP + 1)

Ref(p) == CASE p = 1 -> "v1" [] p = 2 -> "v2" [] p = 3 -> "(b: fr)" [] p = 4 -> "(car ls)" [] p = 5 -> "(cadr ls)" [] p = 6 -> "(get)"
Put(p, x) == CASE p = 1 -> "(set! v1 " \o x \o ")" [] p = 2 -> "(set! v2 " \o x \o ")" [] p = 3 -> "(b:! fr " \o x \o ")" [] p = 4 -> "(set-car! ls " \o x \o ")"
               [] p = 5 -> "(set-car! (cdr ls) " \o x \o ")" [] p = 6 -> "(put " \o x \o ")"
Idx == IDX \cup {-1}
Bytes(s) == "[" \o JoinWith(MapSeq(Str, s), " ") \o "]"
Ints(s) == Paren(MapSeq(Str, s))

RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>} ELSE SeqsUpTo(S, n - 1) \cup {Append(s, x) : s \in {t \in SeqsUpTo(S, n - 1) : Len(t) = n - 1}, x \in S}

Declare == <<"(begin (define v1 [0]) (define v2 [0]) (define fr {b: [0]}) (define ls (list [0] [0])) (define get (lambda () [0])) (define put (lambda (x) 1)) (let ((in [0])) (set! get (lambda () in)) (set! put (lambda (x) (set! in x)))) 1)", "1">>
\* the first place that holds an array makes it, the others refer to that place
First(a, o) == CHOOSE p \in Pl : a[p] = o /\ \A q \in Pl : a[q] = o => p <= q
SetupSteps(a, h) == [p \in Pl |-> <<"(begin " \o Put(p, IF First(a, a[p]) = p THEN (IF p % 2 = 1 THEN Bytes(h[a[p]]) ELSE IF h[a[p]] = <<>> THEN "(drop 1 [0])" ELSE "(list->bytearray '" \o Ints(h[a[p]]) \o ")")
                                                       ELSE Ref(First(a, a[p]))) \o " 1)", "1">>]
Look(a, h) == <<"(list " \o JoinWith([p \in Pl |-> Ref(p)], " ") \o " " \o JoinWith([k \in 1..(NP - 1) |-> JoinWith([j \in 1..(NP - k) |-> "(vsame? " \o Ref(k) \o " " \o Ref(k + j) \o ")"], " ")], " ") \o ")",
                "(" \o JoinWith([p \in Pl |-> Bytes(h[a[p]])], " ") \o " " \o JoinWith([k \in 1..(NP - 1) |-> JoinWith([j \in 1..(NP - k) |-> Bool(a[k] = a[k + j])], " ")], " ") \o ")">>
Start(a, h) == <<Declare>> \o SetupSteps(a, h)

\* aliasing patterns: the first place of every array gives it its number
Patterns == {a \in [Pl -> Pl] : \A p \in Pl : a[p] = First(a, a[p])}
Init == /\ IF ANYINIT
           THEN \E a \in Patterns, h \in [Pl -> SeqsUpTo(BYTES, MAXLEN)] :
                   /\ \A p \in Pl : a[p] # p => h[p] = <<>>
                   /\ at = a /\ heap = [o \in Objs |-> IF o \in Pl THEN h[o] ELSE <<>>]
           ELSE at = [p \in Pl |-> p] /\ heap = [o \in Objs |-> <<>>]
        /\ steps = Start(at, heap)

Act(src, exp, a, h) == /\ at' = a /\ heap' = h
                       /\ steps' = steps \o << <<src, exp>>, Look(a, h)>>
Err(src) == Act(src, "!E", at, heap)
Query(src, exp) == Act(src, exp, at, heap)
Free == CHOOSE o \in Objs : \A p \in Pl : at[p] # o
H(p) == heap[at[p]]
\* the result, a new array, goes to place p
NewAt(p, src, s) == Act("(let ((r " \o src \o ")) " \o Put(p, "r") \o " r)", Bytes(s), [at EXCEPT ![p] = Free], [heap EXCEPT ![Free] = s])
\* the result is the array of place q, which becomes s
SameAt(p, q, src, s) == Act("(let ((r " \o src \o ")) " \o Put(p, "r") \o " r)", Bytes(s), [at EXCEPT ![p] = at[q]], [heap EXCEPT ![at[q]] = s])
Change(q, src, s) == Act(src, Bytes(s), at, [heap EXCEPT ![at[q]] = s])

Min(a, b) == IF a < b THEN a ELSE b
Take(s, n) == SubSeq(s, 1, Min(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
InRange(s, i) == i >= 0 /\ i < Len(s)
C(f, xs) == Call(f, xs)

\* what can be appended: <<source, bytes>>
Tails == {<<"5", <<5>>>>, <<"5 6", <<5, 6>>>>, <<"'(5 6)", <<5, 6>>>>, <<"(list 0 255)", <<0, 255>>>>}
         \cup {<<Ref(q), H(q)>> : q \in Pl}
         \cup {<<Ref(q) \o " 7", Append(H(q), 7)>> : q \in Pl}
         \cup {<<"8 " \o Ref(q), <<8>> \o H(q)>> : q \in Pl}
         \cup {<<"(list " \o Ref(q) \o " " \o Ref(r) \o ")", H(q) \o H(r)>> : q \in Pl, r \in Pl}
         \cup {<<Ref(q) \o " " \o Ref(r), H(q) \o H(r)>> : q \in Pl, r \in Pl}
BadTails == {"256", "-1", "5 256", "5 -1", "'(5 256)", "\"a\"", "5 \"a\"", "1.0", "5 1.5", "#t", "'(5 a)", "5 '(6)", "(list 5 (list 6))", "5 6 'x", "{a: 1}", "v1 256", "(list v1 -1)", "5 6 v1 \"z\""}
Big == {"9223372036854775807", "-9223372036854775807", "4294967296"}
NotIdx == {"\"0\"", "1.0", "'()", "'a", "#t", "[0]", "(list 0)"}
NotByte == {"256", "-1", "1000", "4294967296", "-9223372036854775807", "\"1\"", "1.5", "'()", "#f", "[1]", "'(1)"}
NotArr == {"5", "'()", "\"ab\"", "'(1 2)", "#t", "'a", "{b: 1}", "(lambda (x) x)", "1.5", "(make-channel)"}

Replace(p, q, i, b) ==
  LET ok == InRange(H(q), i)
      s == [H(q) EXCEPT ![i + 1] = b]
      arg == <<Ref(q), Str(i), Str(b)>>
  IN \/ IF ok THEN NewAt(p, C("replace-byte", arg), s) ELSE Err(C("replace-byte", arg))
     \/ IF ok THEN Change(q, C("replace-byte!", arg), s) ELSE Err(C("replace-byte!", arg))
     \/ ok /\ p # q /\ SameAt(p, q, C("replace-byte!", arg), s)
     \/ ok /\ p = q /\ Change(q, "((lambda (x) (replace-byte! x " \o Str(i) \o " " \o Str(b) \o ") x) " \o Ref(q) \o ")", s)
AppendOp(p, q, t) ==
  LET s == H(q) \o t[2] IN
  \/ NewAt(p, C("append-bytes", <<Ref(q), t[1]>>), s)
  \/ Len(s) <= 40 /\ Change(q, C("append-bytes!", <<Ref(q), t[1]>>), s)
  \/ p # q /\ Len(s) <= 40 /\ SameAt(p, q, C("append-bytes!", <<Ref(q), t[1]>>), s)
Extract(p, q, i, n) ==
  LET src == C("extract-bytes", <<Ref(q), Str(i), Str(n)>>) IN
  \* nothing to extract just past the end: unspecified
  /\ ~(i = Len(H(q)) /\ n = 0)
  /\ IF i >= 0 /\ n >= 0 /\ i + n <= Len(H(q)) THEN NewAt(p, src, SubSeq(H(q), i + 1, i + n)) ELSE Err(src)
TakeDrop(p, q, n) ==
  /\ n >= 0
  /\ \/ NewAt(p, C("take", <<Str(n), Ref(q)>>), Take(H(q), n))
     \/ NewAt(p, C("drop", <<Str(n), Ref(q)>>), Drop(H(q), n))
CopyOp(p, q) ==
  \/ NewAt(p, C("copy", <<Ref(q)>>), H(q))
  \/ H(q) # <<>> /\ NewAt(p, "(list->bytearray (bytearray->list " \o Ref(q) \o "))", H(q))
  \/ NewAt(p, "(list->bytearray (list " \o Ref(q) \o "))", H(q))
  \/ \E r \in Pl : NewAt(p, "(list->bytearray (list 1 " \o Ref(q) \o " " \o Ref(r) \o " 2))", <<1>> \o H(q) \o H(r) \o <<2>>)
  \/ NewAt(p, "(b: (copy {b: " \o Ref(q) \o "}))", H(q))
  \/ NewAt(p, "(car (copy (list " \o Ref(q) \o " 1)))", H(q))
  \/ NewAt(p, "(cadr (copy (list 1 " \o Ref(q) \o ")))", H(q))
\* containers that hold the same array
Alias(p, q) ==
  /\ p # q
  /\ \E x \in {Ref(q), "(b: (clone {b: " \o Ref(q) \o "}))", "(car (list " \o Ref(q) \o "))", "((lambda (x) x) " \o Ref(q) \o ")", "(car (reverse (list 1 " \o Ref(q) \o ")))", "(car (append (list " \o Ref(q) \o ") '(1)))",
                "(car (map (lambda (x) x) (list " \o Ref(q) \o ")))", "(car (vector-less " \o Ref(q) \o "))", "(let ((r " \o Ref(q) \o ")) r)"} :
       /\ x # "(car (vector-less " \o Ref(q) \o "))"
       /\ SameAt(p, q, x, H(q))
CopyList == NP >= 5 /\ Act("(begin (set! ls (copy ls)) 1)", "1", [at EXCEPT ![4] = Free, ![5] = CHOOSE o \in Objs : o # Free /\ \A p \in Pl \ {4} : at[p] # o],
                           [heap EXCEPT ![Free] = H(4), ![CHOOSE o \in Objs : o # Free /\ \A p \in Pl \ {4} : at[p] # o] = H(5)])
CloneFrame == NP >= 3 /\ Query("(begin (set! fr (clone fr)) 1)", "1")
Observe(q) ==
  \/ Query("(bytearray->list " \o Ref(q) \o ")", Ints(H(q)))
  \/ Query("(length " \o Ref(q) \o ")", Str(Len(H(q))))
  \/ \E i \in Idx : LET src == C("extract-byte", <<Ref(q), Str(i)>>) IN IF InRange(H(q), i) THEN Query(src, Str(H(q)[i + 1])) ELSE Err(src)
  \/ \E r \in Pl : Query("(equal? " \o Ref(q) \o " " \o Ref(r) \o ")", Bool(H(q) = H(r)))
  \/ Query("(bytearray? " \o Ref(q) \o ")", "#t")
  \/ H(q) # <<>> /\ Query("(let ((l (bytearray->list " \o Ref(q) \o "))) (set-car! l 99) 1)", "1")   \* the list is not the array

Misuse ==
  /\ MISUSE
  /\ \/ \E q \in Pl, x \in NotIdx \cup Big : \/ Err(C("replace-byte", <<Ref(q), x, "1">>)) \/ Err(C("replace-byte!", <<Ref(q), x, "1">>)) \/ Err(C("extract-byte", <<Ref(q), x>>))
                                             \/ Err(C("extract-bytes", <<Ref(q), x, "1">>)) \/ Err(C("extract-bytes", <<Ref(q), "0", IF x \in NotIdx THEN x ELSE "9223372036854775807">>))
                                             \/ (H(q) # <<>> /\ x \in Big /\ Err(C("extract-bytes", <<Ref(q), Str(Len(H(q)) - 1), x>>)))
                                             \/ (x \in NotIdx /\ (Err(C("take", <<x, Ref(q)>>)) \/ Err(C("drop", <<x, Ref(q)>>))))
     \/ \E q \in Pl, x \in NotByte : Err(C("replace-byte", <<Ref(q), "0", x>>)) \/ Err(C("replace-byte!", <<Ref(q), "0", x>>)) \/ (x # "'()" /\ x # "'(1)" /\ x # "[1]" /\ (Err(C("append-bytes!", <<Ref(q), x>>)) \/ Err(C("append-bytes", <<Ref(q), "1", x>>))))
     \/ \E q \in Pl, x \in BadTails : Err(C("append-bytes", <<Ref(q), x>>)) \/ Err(C("append-bytes!", <<Ref(q), x>>))
     \/ \E x \in NotArr : \/ Err(C("replace-byte", <<x, "0", "1">>)) \/ Err(C("replace-byte!", <<x, "0", "1">>)) \/ Err(C("extract-byte", <<x, "0">>)) \/ Err(C("extract-bytes", <<x, "0", "1">>))
                           \/ Err(C("append-bytes", <<x, "v1">>)) \/ Err(C("append-bytes!", <<x, "v1">>)) \/ Err(C("bytearray->list", <<x>>))
                           \/ (x \notin {"'()", "'(1 2)"} /\ (Err(C("take", <<"1", x>>)) \/ Err(C("drop", <<"1", x>>)) \/ Err(C("list->bytearray", <<x>>))))
     \/ \E x \in {"'(256)", "'(1 -1)", "'(1 a)", "(list 1 \"b\")", "'(1 (2))", "'(1.0)", "(list v1 256)", "(list v1 #t)"} : Err(C("list->bytearray", <<x>>)) \/ Err(C("list-to-bytearray", <<x>>))
     \/ \E n \in 1..6, x \in {"256", "-1", "a", "(1)", "2.0"} : \E k \in 1..n :
          LET es == JoinWith([j \in 1..n |-> IF j = k THEN x ELSE "1"], " ") IN
          \/ Err("(list->bytearray '(" \o es \o "))") \/ \E q \in Pl : Err("(append-bytes " \o Ref(q) \o " '(" \o es \o "))") \/ Err("(append-bytes! " \o Ref(q) \o " '(" \o es \o "))")
     \* the array an argument changes is the array the operation then works on
     \/ \E q \in Pl : H(q) # <<>> /\ Err("(replace-byte! " \o Ref(q) \o " 0 (error \"no\"))")

Pick(S) == IF RANDOM THEN {RandomElement(S)} ELSE S
Next == \/ \E p \in Pick(Pl), q \in Pick(Pl) :
             \/ \E i \in Pick(Idx), b \in Pick({3, 255}) : Replace(p, q, i, b)
             \/ \E t \in Pick(Tails) : Len(t[2]) <= 30 /\ AppendOp(p, q, t)
             \/ \E i \in Pick(Idx), n \in Pick(Idx) : Extract(p, q, i, n)
             \/ \E n \in Pick(Idx) : TakeDrop(p, q, n)
             \/ CopyOp(p, q) \/ Alias(p, q)
        \* two different continuations of the same array
        \/ RANDOM /\ \E p \in Pick(Pl), q \in Pick(Pl), t \in Pick({<<"1", <<1>>>>, <<"1 2", <<1, 2>>>>, <<"'(3 4 5)", <<3, 4, 5>>>>}) :
             Act("(let ((r (append-bytes " \o Ref(q) \o " " \o t[1] \o ")) (r2 (append-bytes " \o Ref(q) \o " 9))) " \o Put(p, "r") \o " (list r r2))", Paren(<<Bytes(H(q) \o t[2]), Bytes(Append(H(q), 9))>>),
                 [at EXCEPT ![p] = Free], [heap EXCEPT ![Free] = H(q) \o t[2]])
        \/ \E q \in Pick(Pl) : Observe(q)
        \/ CopyList \/ CloneFrame
        \/ Misuse
Spec == Init /\ [][Next]_vars
\* ---- the design: bytes stay bytes; one step changes one array at most, and gives one place at most another array (copying the list: two)
OnlyBytes == \A p \in Pl : \A i \in 1..Len(H(p)) : H(p)[i] \in 0..255
OneArray == [][/\ Cardinality({o \in {at[p] : p \in Pl} : heap[o] # heap'[o]}) <= 1
               /\ Cardinality({p \in Pl : at[p] # at'[p]}) <= 2]_vars
View == <<at, [p \in Pl |-> H(p)]>>
N == 2 * DEPTH + NP + 1
Bounded == Len(steps) < N
BoundedNext == Len(steps') < N
EmitEdge == EmitSteps("e", steps')
EmitPath == IF Len(steps') = N THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
