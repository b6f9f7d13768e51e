------------------------------ MODULE ConsHeap ------------------------------
(* Cons cells k1, k2, ...: every one has a name, so that after each operation    *)
(* all of them are looked at: what each prints as, and which cells their fields   *)
(* are.  Mutators change one field of one cell; constructors add cells; anything  *)
(* else leaves the heap as it is.                                                 *)
EXTENDS Emit, Integers, FiniteSets

CONSTANTS NC,        \* cells to start with
          MAXC,      \* cells at most
          PURE,      \* TRUE: with all the operations that must change nothing
          NEWOPS,    \* TRUE: with constructors
          DEPTH, RANDOM
VARIABLES heap, steps
vars == <<heap, steps>>

I(n) == <<"i", n>>
NilV == <<"n">>
Ref(k) == <<"c", k>>
IsRef(v) == v[1] = "c"
K(k) == "k" \o Str(k)
Src(v) == IF IsRef(v) THEN K(v[2]) ELSE IF v = NilV THEN "'()" ELSE Str(v[2])
RECURSIVE P(_, _), Rest(_, _)
P(h, v) == IF ~IsRef(v) THEN (IF v = NilV THEN "()" ELSE Str(v[2])) ELSE "(" \o P(h, h[v[2]].a) \o Rest(h, h[v[2]].d)
Rest(h, d) == IF d = NilV THEN ")" ELSE IF ~IsRef(d) THEN " . " \o P(h, d) \o ")" ELSE " " \o P(h, h[d[2]].a) \o Rest(h, h[d[2]].d)
RECURSIVE Reach(_, _)
Reach(h, v) == IF ~IsRef(v) THEN {} ELSE {v[2]} \cup Reach(h, h[v[2]].a) \cup Reach(h, h[v[2]].d)
RECURSIVE Spine(_, _)        \* the cells of the chain
Spine(h, v) == IF ~IsRef(v) THEN <<>> ELSE <<v[2]>> \o Spine(h, h[v[2]].d)
Proper(h, v) == v = NilV \/ (IsRef(v) /\ LET s == Spine(h, v) IN h[s[Len(s)]].d = NilV)
Elems(h, v) == LET s == Spine(h, v) IN [i \in 1..Len(s) |-> h[s[i]].a]
RECURSIVE Size(_, _)
Size(h, v) == IF ~IsRef(v) THEN 1 ELSE Size(h, h[v[2]].a) + Size(h, h[v[2]].d)

Look(h) ==
  LET refs == {<<i, f>> \in (1..Len(h)) \X {"a", "d"} : IsRef(h[i][f])}
      RECURSIVE S(_)
      S(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o S(X \ {x})
      rs == S(refs)
  IN << <<Call("list", [i \in 1..Len(h) |-> K(i)]), Paren([i \in 1..Len(h) |-> P(h, Ref(i))])>> >>
     \o (IF rs = <<>> THEN <<>> ELSE << <<"(and " \o JoinWith([i \in 1..Len(rs) |-> "(vsame? (c" \o rs[i][2] \o "r " \o K(rs[i][1]) \o ") " \o K(h[rs[i][1]][rs[i][2]][2]) \o ")"], " ") \o ")", "#t">> >>)
Build(h, i) == "(define " \o K(i) \o " (cons " \o Src(h[i].a) \o " " \o Src(h[i].d) \o "))"
Scribble == "(define (scribble x) (if (or (nil? x) (not (pair? x))) 'ok (begin (set-car! x 99) (scribble (cdr x)))))"
DeepScribble == "(define (deep x) (if (or (nil? x) (not (pair? x))) 'ok (begin (deep (car x)) (deep (cdr x)) (set-car! x 99) (set-cdr! x 98))))"
Start(h) == << <<"(begin " \o Scribble \o " " \o DeepScribble \o " " \o JoinWith([i \in 1..Len(h) |-> Build(h, Len(h) + 1 - i)], " ") \o " 1)", "1">> >>

\* fields of cell i only lead to later cells
Cars(i) == {I(10 * i), NilV} \cup {Ref(j) : j \in (i + 1)..NC}
Cdrs(i) == {I(5), NilV} \cup {Ref(j) : j \in (i + 1)..NC}
RECURSIVE Heaps(_)
Heaps(i) == IF i > NC THEN {<<>>} ELSE {<<[a |-> x, d |-> y]>> \o r : x \in Cars(i), y \in Cdrs(i), r \in Heaps(i + 1)}
Init == IF RANDOM THEN heap = <<>> /\ steps = <<>>
        ELSE heap \in Heaps(1) /\ steps = Start(heap)
\* in random heaps most cells form proper lists
Setup == /\ steps = <<>>
         /\ \E x \in {1} : heap' = [i \in 1..NC |-> [a |-> RandomElement(Cars(i)), d |-> IF RandomElement(1..5) = 1 THEN RandomElement(Cdrs(i)) ELSE IF RandomElement(1..3) = 1 \/ i = NC THEN NilV ELSE Ref(RandomElement((i + 1)..NC))]]
         /\ steps' = Start(heap')
Pick(S) == IF RANDOM THEN {RandomElement(S)} ELSE S      \* in random behaviours one choice
Ready == steps # <<>>
Cells == 1..Len(heap)
Vals == {I(7), NilV} \cup {Ref(j) : j \in Cells}
Small(h) == \A i \in 1..Len(h) : Size(h, Ref(i)) < 40
Act(src, exp, h) == Ready /\ Small(h) /\ heap' = h /\ steps' = steps \o << <<src, exp>> >> \o Look(h)
Same(src, exp) == Ready /\ heap' = heap /\ steps' = steps \o << <<src, exp>> >> \o Look(heap)

\* storing v in cell i makes no cycle
NoCycle(i, v) == i \notin Reach(heap, v)
Via(i, form) == IF form = 1 THEN K(i) ELSE IF form = 2 THEN "((lambda (x) x) " \o K(i) \o ")" ELSE "(let ((x " \o K(i) \o ")) x)"
SetCar(i, v, form) == NoCycle(i, v) /\ Act("(begin (set-car! " \o Via(i, form) \o " " \o Src(v) \o ") 'ok)", "ok", [heap EXCEPT ![i].a = v])
SetCdr(i, v, form) == NoCycle(i, v) /\ Act("(begin (set-cdr! " \o Via(i, form) \o " " \o Src(v) \o ") 'ok)", "ok", [heap EXCEPT ![i].d = v])
\* through another cell's field
SetThrough(i, f, g, v) ==
  /\ IsRef(heap[i][f]) /\ NoCycle(heap[i][f][2], v)
  /\ Act("(begin (set-c" \o g \o "r! (c" \o f \o "r " \o K(i) \o ") " \o Src(v) \o ") 'ok)", "ok", [heap EXCEPT ![heap[i][f][2]][g] = v])
SetNth(i, n, v) ==
  LET s == Spine(heap, Ref(i)) IN
  IF n >= 1 /\ n <= Len(s) THEN NoCycle(s[n], v) /\ Act("(begin (set-nth! " \o K(i) \o " " \o Str(n) \o " " \o Src(v) \o ") 'ok)", "ok", [heap EXCEPT ![s[n]].a = v])
  ELSE Same("(set-nth! " \o K(i) \o " " \o Str(n) \o " " \o Src(v) \o ")", "*")
AppendB(i, v) ==
  LET s == Spine(heap, Ref(i))
      z == s[Len(s)]
      src == "(begin (append! " \o K(i) \o " " \o Src(v) \o ") 'ok)"
  IN /\ Proper(heap, Ref(i))
     /\ IF v = NilV THEN Act(src, "ok", heap)
        ELSE IF IsRef(v) THEN NoCycle(z, v) /\ Act(src, "ok", [heap EXCEPT ![z].d = v])
        ELSE /\ Len(heap) < MAXC
             /\ Act("(begin (append! " \o K(i) \o " " \o Src(v) \o ") (define " \o K(Len(heap) + 1) \o " (last-pair " \o K(i) \o ")) 'ok)", "ok",
                    Append([heap EXCEPT ![z].d = Ref(Len(heap) + 1)], [a |-> v, d |-> NilV]))
Mutate == \/ \E i \in Pick(Cells), v \in Pick(Vals) : SetCar(i, v, 1) \/ SetCdr(i, v, 1) \/ AppendB(i, v)
          \/ \E i \in Pick(Cells), f \in {"a", "d"}, g \in {"a", "d"}, v \in {I(8), NilV} : SetThrough(i, f, g, v)
          \/ \E i \in Pick(Cells), n \in Pick(0..4), v \in {I(9), NilV} \cup {Ref(j) : j \in Pick(Cells)} : SetNth(i, n, v)
          \/ \E i \in Pick(Cells), k \in {2, 3} : SetCar(i, I(6), k) \/ SetCdr(i, NilV, k)
          \* from another process
          \/ \E i \in Pick(Cells) : Act("(begin (join (fork (lambda (p) (set-car! " \o K(i) \o " 4)))) 'ok)", "ok", [heap EXCEPT ![i].a = I(4)])
          \* mapped over several cells
          \/ \E i \in Pick(Cells), j \in Pick(Cells) : i # j /\ Act("(begin (for-each (lambda (x) (set-car! x 3)) (list " \o K(i) \o " " \o K(j) \o ")) 'ok)", "ok", [heap EXCEPT ![i].a = I(3), ![j].a = I(3)])

\* ---- constructors: new cells get the next names
N0 == Len(heap)
NewSpine(es, tail) == [k \in 1..Len(es) |-> [a |-> es[k], d |-> IF k = Len(es) THEN tail ELSE Ref(N0 + k + 1)]]
NewList(src, es, tail) ==
  /\ es # <<>> /\ N0 + Len(es) <= MAXC
  /\ Act("(begin (define " \o K(N0 + 1) \o " " \o src \o ") "
         \o JoinWith([k \in 1..(Len(es) - 1) |-> "(define " \o K(N0 + k + 1) \o " (cdr " \o K(N0 + k) \o "))"], " ") \o " 'ok)", "ok", heap \o NewSpine(es, tail))
\* copy: a new cell for every cell, sharing nothing; names in depth first order, car before cdr
RECURSIVE CopyInto(_, _, _)   \* <<heap, value, definitions>>
CopyInto(h, v, path) ==
  IF ~IsRef(v) THEN <<h, v, "">>
  ELSE LET n == Len(h) + 1
           c == h[v[2]]
           h1 == Append(h, [a |-> NilV, d |-> NilV])
           x == CopyInto(h1, c.a, "(car " \o K(n) \o ")")
           y == CopyInto(x[1], c.d, "(cdr " \o K(n) \o ")")
       IN <<[y[1] EXCEPT ![n] = [a |-> x[2], d |-> y[2]]], Ref(n), "(define " \o K(n) \o " " \o path \o ") " \o x[3] \o y[3]>>
CellCount(v) == Size(heap, v) - 1
Copy(i) == /\ N0 + CellCount(Ref(i)) <= MAXC
           /\ LET c == CopyInto(heap, Ref(i), "(copy " \o K(i) \o ")") IN Act("(begin " \o c[3] \o "'ok)", "ok", c[1])
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
New == \/ \E v \in Pick(Vals), w \in Pick(Vals) : NewList("(cons " \o Src(v) \o " " \o Src(w) \o ")", <<v>>, w)
       \/ \E v \in Pick(Vals), w \in Pick(Vals) : NewList("(list " \o Src(v) \o " " \o Src(w) \o ")", <<v, w>>, NilV)
       \/ \E v \in Pick(Vals), w \in Pick(Vals), z \in Pick(Cells) : NewList("(cons* " \o Src(v) \o " " \o Src(w) \o " " \o K(z) \o ")", <<v, w>>, Ref(z))
       \/ \E i \in Pick(Cells) : Copy(i)
       \/ \E i \in Pick(Cells) : Proper(heap, Ref(i)) /\ LET es == Elems(heap, Ref(i)) IN
            \/ NewList("(reverse " \o K(i) \o ")", RevSeq(es), NilV)
            \/ NewList("(map (lambda (x) x) " \o K(i) \o ")", es, NilV)
            \/ NewList("(filter (lambda (x) #t) " \o K(i) \o ")", es, NilV)
            \/ NewList("(take " \o Str(Len(es)) \o " " \o K(i) \o ")", es, NilV)
            \/ NewList("(list-head " \o K(i) \o " 1)", <<es[1]>>, NilV)
            \/ NewList("(sublist " \o K(i) \o " 1 9)", es, NilV)
            \/ NewList("`(,@" \o K(i) \o " 1)", es \o <<I(1)>>, NilV)
            \/ \E j \in Pick(Cells) : Proper(heap, Ref(j)) /\ NewList("(append " \o K(i) \o " " \o K(j) \o ")", es \o Elems(heap, Ref(j)), NilV)

\* ---- everything else: whatever it answers, the cells stay as they are
Un == {"reverse", "flatten", "flatten*", "copy", "length", "list", "car", "cdr", "cadr", "cddr", "first", "second", "last-pair", "cons*", "str", "lisp->json", "list->bytearray", "null?", "pair?", "list?", "not", "eval", "max", "min", "dissoc 5"}
Bin == {"append", "union", "intersection", "complement", "equal?", "eq?", "memq", "member", "assoc", "rassoc", "dissoc", "cons", "pairlis", "list", "map cons", "map list", "for-each list", "apply list", "fold-left cons '()", "fold-right cons '()", "reduce cons '()"}
Exprs(i, j) == {"(" \o f \o " " \o K(i) \o ")" : f \in Un}
               \cup {"(" \o f \o " " \o K(i) \o " " \o K(j) \o ")" : f \in Bin \ {"fold-left cons '()", "fold-right cons '()", "reduce cons '()"}}
               \cup {"(" \o f \o " " \o K(i) \o ")" : f \in {"fold-left cons '()", "fold-right cons '()", "reduce cons '()", "map car", "filter pair?", "remove pair?", "partition 2", "partition pair?", "find pair?", "find-tail pair?", "any pair?", "every pair?", "take 2", "drop 1", "apply +", "map (lambda (x) (list x x))"}}
               \cup {"(sort " \o K(i) \o " <)", "(sort " \o K(i) \o " (lambda (a b) (< (length a) (length b))))", "(sublist " \o K(i) \o " 1 2)", "(list-head " \o K(i) \o " 2)", "(list-tail " \o K(i) \o " 1)", "(list-ref " \o K(i) \o " 1)", "(nth " \o K(i) \o " 2)",
                     "`(1 ,@" \o K(i) \o " ,@" \o K(j) \o ")", "`(1 ,@" \o K(i) \o ")", "`,@" \o K(i), "(apply (lambda r (set! r '())) " \o K(i) \o ")", "((lambda r (set-car! r 1)) " \o K(i) \o " " \o K(j) \o ")", "(let ((x " \o K(i) \o ")) (set! x 5))",
                     "(append " \o K(i) \o " 5 " \o K(j) \o " " \o K(i) \o ")", "(union " \o K(i) \o " " \o K(j) \o " " \o K(i) \o ")", "(eval (list 'quote " \o K(i) \o "))", "(case " \o K(i) \o " (" \o "(1 2) 3) (else 4))", "{a: " \o K(i) \o "}", "(clone {a: " \o K(i) \o "})", "(copy {a: " \o K(i) \o "})",
                     "(alist (list (cons 1 " \o K(i) \o ") (cons 2 " \o K(j) \o ")))", "(let ((c (make-channel 1))) (channel-write c " \o K(i) \o ") (vsame? " \o K(i) \o " (car (channel-read c))))", "(-> " \o K(i) \o " (cons 1))", "(on-error (error \"x\") (lambda (e) " \o K(i) \o "))",
                     "(set-car! (copy " \o K(i) \o ") 99)", "(set-cdr! (copy " \o K(i) \o ") 99)", "(set-car! (reverse " \o K(i) \o ") 99)", "(set-nth! (copy " \o K(i) \o ") 2 99)", "(append! (copy " \o K(i) \o ") 99)", "(append! (reverse " \o K(i) \o ") " \o K(j) \o ")", "(set-car! (append " \o K(i) \o " " \o K(j) \o ") 99)", "(set-car! (map (lambda (x) x) " \o K(i) \o ") 99)",
                     "(set-car! (car (copy (list " \o K(i) \o "))) 99)", "(set-cdr! (a: (copy {a: " \o K(i) \o "})) 99)"}
\* results that are made of new cells: changing all of them leaves the cells alone
Fresh(i, j) == {"(" \o f \o " " \o K(i) \o ")" : f \in {"reverse", "flatten", "flatten*", "union", "intersection", "complement", "append", "copy", "list", "map (lambda (x) x)", "filter (lambda (x) #t)", "remove (lambda (x) #f)", "take 9", "take 1", "partition 2", "apply list", "car (partition 2", "partition pair?", "append '(1)", "append '()", "map list"} \ {"car (partition 2"}}
               \cup {"(" \o f \o " " \o K(i) \o " " \o K(j) \o ")" : f \in {"append", "union", "intersection", "complement", "map list", "list", "append '(1)"}}
               \cup {"(list-head " \o K(i) \o " 1)", "(list-head " \o K(i) \o " 2)", "(sublist " \o K(i) \o " 1 2)", "(sublist " \o K(i) \o " 1 9)", "(sort " \o K(i) \o " (lambda (a b) #f))", "(car (partition 2 " \o K(i) \o "))", "(cadr (partition 1 " \o K(i) \o "))",
                      "(union " \o K(i) \o " '())", "(union '() " \o K(i) \o ")", "(intersection " \o K(i) \o " " \o K(i) \o " " \o K(j) \o ")", "(complement " \o K(i) \o " '())", "(append " \o K(i) \o " '())", "(append " \o K(i) \o " 5)",
                      "(append '() " \o K(i) \o " '())", "(flatten (list 0 " \o K(i) \o "))", "(flatten (list " \o K(i) \o "))", "(flatten (list " \o K(i) \o " " \o K(j) \o "))", "(flatten* (list 0 " \o K(i) \o "))", "(flatten* (list (list " \o K(i) \o ") " \o K(j) \o "))",
                      "`(,@" \o K(i) \o " 1)", "`(,@" \o K(i) \o " ,@" \o K(j) \o " 1)", "((lambda (z . r) r) 0 " \o K(i) \o ")", "(apply (lambda (z . r) r) 0 " \o K(i) \o ")", "(apply (lambda r r) " \o K(i) \o ")", "(map car (list " \o K(i) \o " " \o K(j) \o "))"}
\* what shares no part at all
Apart(i, j) == {"(copy " \o K(i) \o ")", "(copy (list " \o K(i) \o " " \o K(j) \o "))", "(copy (cons " \o K(i) \o " " \o K(j) \o "))", "(copy (list 1 2 (list 3 " \o K(i) \o ")))", "(a: (copy {a: " \o K(i) \o "}))", "(car (a: (copy {a: (list " \o K(i) \o ")})))", "(a: (b: (copy {b: {a: " \o K(i) \o "}})))",
                "(a: (car (copy (list {a: " \o K(i) \o "}))))", "(a: (cadr (copy (list 1 {a: " \o K(i) \o "}))))", "(cadr (copy (cons* 1 " \o K(i) \o " 2)))", "(cdr (assoc 'q (copy (alist (list (cons 'q " \o K(i) \o "))))))", "(cdr (assoc 'q (copy (acons 'q " \o K(i) \o " '()))))",
                "(car (cdr (assoc 'q (copy (list (cons 'z 1) (cons 'q (list " \o K(i) \o ")))))))"}
\* copies of mixed structures: shape, how to reach the leaf, the leaf, how to change it
Shapes == {<<"x", "c">>, <<"(list x)", "(car c)">>, <<"(list 1 x)", "(cadr c)">>, <<"(list x 1)", "(car c)">>, <<"(list 1 2 x)", "(caddr c)">>, <<"(cons 1 x)", "(cdr c)">>, <<"(cons* 1 2 x)", "(cddr c)">>, <<"{k: x}", "(k: c)">>, <<"{j: 1 k: x}", "(k: c)">>,
           <<"(list (list x))", "(caar c)">>, <<"(list {k: x})", "(k: (car c))">>, <<"(list 1 {k: x})", "(k: (cadr c))">>, <<"{k: (list x)}", "(car (k: c))">>, <<"{k: {k: x}}", "(k: (k: c))">>, <<"{k: (list 1 x)}", "(cadr (k: c))">>, <<"(cons {k: x} 2)", "(k: (car c))">>,
           <<"(alist (list (cons 'k x)))", "(cdr (assoc 'k c))">>, <<"(acons 'k x '())", "(cdr (assoc 'k c))">>, <<"(acons 'k (list 1 x) (acons 'j 1 '()))", "(cadr (cdr (assoc 'k c)))">>, <<"(car (acons 'k x '()))", "(cdr c)">>, <<"(list 1 (car (acons 'k x '())))", "(cdr (cadr c))">>, <<"{k: (car (alist (list (cons 'k x))))}", "(cdr (k: c))">>, <<"{k: (acons 'k x '())}", "(cdr (assoc 'k (k: c)))">>, <<"(list 1 (acons 'k x '()))", "(cdr (assoc 'k (cadr c)))">>}
Leaves == {<<"(list 1 2)", "(set-car! l 9)", "(1 2)">>, <<"(list 1 2)", "(set-cdr! l 9)", "(1 2)">>, <<"(list 1 2)", "(append! l 9)", "(1 2)">>, <<"(cons 1 2)", "(set-cdr! l 9)", "(1 . 2)">>, <<"{a: 1}", "(set-slot! l a: 9)", "{a: 1}">>, <<"{a: 1}", "(set-slot! l b: 9)", "{a: 1}">>, <<"{a: 1}", "(remove-slot! l a:)", "{a: 1}">>,
           <<"[1 2]", "(replace-byte! l 0 9)", "[1 2]">>, <<"[1 2]", "(append-bytes! l 9)", "[1 2]">>}
MixedSrc(s, l) == "(let* ((x " \o l[1] \o ") (o " \o s[1] \o ") (c (copy o))) (let ((same (equal? o c)) (l " \o s[2] \o ")) " \o l[2] \o " (list same x)))"
Errs(i) == {"(set-car! " \o K(i) \o " (error \"e\"))", "(set-cdr! " \o K(i) \o " (error \"e\"))", "(set-nth! " \o K(i) \o " 1 (error \"e\"))", "(set-nth! " \o K(i) \o " (error \"e\") 1)", "(set-nth! (error \"e\") 1 " \o K(i) \o ")", "(append! " \o K(i) \o " (error \"e\"))", "(append! (error \"e\") " \o K(i) \o ")", "(set-car! (error \"e\") " \o K(i) \o ")",
             "(set-car! 5 " \o K(i) \o ")", "(set-cdr! '() " \o K(i) \o ")", "(set-car! '() 1)", "(set-cdr! \"a\" 1)", "(set-car! 'k1 1)", "(append! 5 " \o K(i) \o ")", "(append! \"a\" 1)", "(set-nth! 5 1 1)", "(set-nth! " \o K(i) \o " \"1\" 1)", "(set-nth! " \o K(i) \o " 1.0 1)",
             "(set-car! " \o K(i) \o ")", "(set-cdr! " \o K(i) \o " 1 2)", "(set-nth! " \o K(i) \o " 1)", "(append! " \o K(i) \o ")", "(begin (error \"e\") (set-car! " \o K(i) \o " 1))", "(map (lambda (x) (error \"e\")) " \o K(i) \o ")"}
Pure == \E i \in Pick(Cells) :
                         \/ \E j \in Pick(Cells) : \E e \in Exprs(i, j) : Same(e, "*")
                         \/ \E j \in Pick(Cells) : \E e \in Fresh(i, j) : Same("(scribble " \o e \o ")", "*")
                         \/ \E j \in Pick(Cells) : \E e \in Apart(i, j) : Same("(deep " \o e \o ")", "*")
                         \/ \E e \in Errs(i) : Same(e, "!E")
                         \* the rest of a list is that list's own cell
                         \/ \E n \in 1..Len(Spine(heap, Ref(i))) : LET s == Spine(heap, Ref(i)) IN
                              \E f \in {"(list-tail " \o K(i) \o " " \o Str(n - 1) \o ")", "(drop " \o Str(n - 1) \o " " \o K(i) \o ")"} : Same("(vsame? " \o f \o " " \o K(s[n]) \o ")", "#t")
Mixed == /\ Len(heap) = 2
         /\ \A i \in 1..2 : heap[i] = [a |-> NilV, d |-> NilV]
         /\ \E s \in Shapes, l \in Leaves : Same(MixedSrc(s, l), "(#t " \o l[3] \o ")")
Next == \/ Setup \/ Mixed \/ (steps # <<>> /\ Mutate) \/ (steps # <<>> /\ NEWOPS /\ New) \/ (steps # <<>> /\ PURE /\ Pure)
Spec == Init /\ [][Next]_vars
\* ---- the design
Acyclic == \A i \in Cells : i \notin Reach(heap, heap[i].a) \cup Reach(heap, heap[i].d)
\* one step changes one field of the old cells at most (two cars when mapped over two cells)
OneField == [][Cardinality({<<i, f>> \in (1..Len(heap)) \X {"a", "d"} : heap'[i][f] # heap[i][f]}) <= 2 /\ Len(heap') >= Len(heap)]_vars
View == heap
Bounded == Len(steps) < 1 + DEPTH
BoundedNext == Len(steps') < 1 + DEPTH
EmitEdge == EmitSteps("e", steps')
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
