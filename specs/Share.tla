-------------------------------- MODULE Share --------------------------------
(* Several sessions that use one shared thing at the same time, each its own     *)
(* part of it, so that each must get what it would get alone.                    *)
(*  frame: one frame. Session k sets, removes and reads the slots k1:, k2:, k3:  *)
(*         and looks at the frame as a whole: its keys, values, length, clones,  *)
(*         text, and through children that inherit from it.                      *)
(*  call:  functions (with rest parameters, closures, recursion), called with    *)
(*         arguments of the session's own in every way there is.                 *)
(*  env:   one scope, in which session k defines, assigns and looks up k1 .. k3. *)
EXTENDS Emit, FiniteSets
CONSTANTS MODE, K, LEN, GROUPS
RE(S) == RandomElement(S)
Q(src, e) == <<src, e>>
O(k, j) == "s" \o Str(k) \o (<<"x", "y", "z">>[j])
L(ss) == Paren(ss)
Val(k, i) == Str(1000 * k + i)
None == "()"
\* own: the three parts of the session, "()" if absent
Vals(own) == [j \in 1..3 |-> own[j]]
Marks(own) == L([j \in 1..3 |-> Bool(own[j] # None)])
Count(own) == Cardinality({j \in 1..3 : own[j] # None})
Names(k, c) == "(list " \o JoinWith([j \in 1..3 |-> O(k, j) \o ":"], " ") \o c \o ")"
Quoted(k) == "'(" \o JoinWith([j \in 1..3 |-> O(k, j)], " ") \o ")"
\* ---- one operation of session k: <<step, own'>>
FrameOp(k, own, i, j, o) ==
  LET n == O(k, j) \o ":" v == Val(k, i) IN
  CASE o = 1 -> <<Q("(set-slot! f " \o n \o " " \o v \o ")", v), [own EXCEPT ![j] = v]>>
    [] o = 2 -> <<Q("(" \o n \o "! f " \o v \o ")", v), [own EXCEPT ![j] = v]>>
    [] o = 3 -> <<Q("(put:> f " \o n \o " " \o v \o ")", v), [own EXCEPT ![j] = v]>>
    [] o = 4 -> <<Q("(remove-slot! f " \o n \o ")", Bool(own[j] # None)), [own EXCEPT ![j] = None]>>
    [] o = 5 -> <<Q("(get-slot f " \o n \o ")", IF own[j] = None THEN "!E" ELSE own[j]), own>>
    [] o = 6 -> <<Q("(list (" \o n \o "? f) (get-slot-or-nil f " \o n \o ") (got:> c " \o n \o ") (get-slot-or-nil c " \o n \o "))", L(<<Bool(own[j] # None), own[j], own[j], own[j]>>)), own>>
    [] o = 7 -> <<Q("(let ((ks (frame-keys f))) (map (lambda (s) (if (memq s ks) #t #f)) " \o Names(k, "") \o "))", Marks(own)), own>>
    [] o = 8 -> <<Q("(let ((vs (frame-values f))) (list (if (memq 1 vs) #t #f) " \o (IF own[j] = None THEN "#t" ELSE "(if (memq " \o own[j] \o " vs) #t #f)") \o "))", "(#t #t)"), own>>
    [] o = 9 -> <<Q("(let ((g (clone f))) (map (lambda (s) (get-slot-or-nil g s)) " \o Names(k, " p1:") \o "))", L(Vals(own) \o <<"1">>)), own>>
    [] o = 10 -> <<Q("(let* ((g (clone f)) (ks (frame-keys g))) (remove-slot! g p1:) (set-slot! g " \o n \o " 0) (list (eq? (length ks) (length g)) (p1: f) (get-slot-or-nil f " \o n \o ") (if (memq p2: ks) #t #f)))", "?|" \o L(<<"#f", "1", own[j], "#t">>) \o "||" \o L(<<"#t", "1", own[j], "#t">>)), own>>
    [] o = 11 -> <<Q("(list (>= (length f) " \o Str(5 + Count(own)) \o ") (equal? f f) (string? (str f)) (>= (length (frame-keys f)) " \o Str(5 + Count(own)) \o "))", "(#t #t #t #t)"), own>>
    [] o = 12 -> <<Q("(let ((g (json->lisp (lisp->json (clone-data f))))) (map (lambda (s) (get-slot-or-nil g s)) " \o Names(k, " p2:") \o "))", L(Vals(own) \o <<"2">>)), own>>
    [] o = 13 -> <<Q("(let ((d {q*: f " \o n \o " 7})) (list (" \o n \o " d) (p1: d) (got:> d " \o n \o ") (get-slot-or-nil f " \o n \o ")))", L(<<"7", "1", "7", own[j]>>)), own>>
    [] o = 14 -> <<Q("(list (p1: f) (p2: c) (len:> c " \o Paren(<<"list 1 2">>) \o "))", "(1 2 2)"), own>>
Alpha == <<"a", "b", "c", "d">>
\* n numbers of the session's own
Nums(k, n) == [i \in 1..n |-> Str(k * 1000 + i)]
CallOp(k, own, i, j, o) ==
  LET n == IF j = 1 THEN RE(0..5) ELSE RE(10..120) ns == Nums(k, n) ts == JoinWith(ns, " ") one == Str(k * 1000) IN
  <<CASE o = 1 -> Q("(all " \o ts \o ")", L(ns))
      [] o = 2 -> Q("(apply all '" \o L(ns) \o ")", L(ns))
      [] o = 3 -> Q("(apply all " \o one \o " " \o one \o " '" \o L(ns) \o ")", L(<<one, one>> \o ns))
      [] o = 4 -> Q("(more " \o one \o " " \o ts \o ")", L(<<one, L(ns)>>))
      [] o = 5 -> Q("(apply more '" \o L(<<one>> \o ns) \o ")", L(<<one, L(ns)>>))
      [] o = 6 -> Q("(map more '(1 2 3) '" \o L(<<one, one, one>>) \o " '(7 8 9))", L(<<L(<<"1", L(<<one, "7">>)>>), L(<<"2", L(<<one, "8">>)>>), L(<<"3", L(<<one, "9">>)>>)>>))
      [] o = 7 -> Q("(join (fork forked " \o one \o " " \o ts \o "))", L(<<one, L(ns)>>))
      [] o = 8 -> Q("(let ((r (fold-left twice '() '" \o L(ns) \o "))) (length r))", Str(2 * n))
      [] o = 9 -> Q("(local " \o one \o " '" \o L(ns) \o ")", L(<<one, L(ns), Str(n)>>))
      [] o = 10 -> Q("(m:> {m: more} " \o one \o " " \o ts \o ")", L(<<one, L(ns)>>))
      [] o = 11 -> Q("(apply-slot {m: more} m: " \o one \o " '" \o L(ns) \o ")", L(<<one, L(ns)>>))
      [] o = 12 -> Q("(let ((g (adder " \o one \o "))) (map g '(1 2 3)))", L(<<Str(k * 1000 + 1), Str(k * 1000 + 2), Str(k * 1000 + 3)>>))
      [] o = 13 -> Q("(mac " \o one \o " " \o ts \o ")", L(<<one, L(ns)>>))
      [] o = 14 -> Q("(list (count " \o Str(n) \o " " \o one \o ") (apply count " \o Str(n % 9) \o " '" \o L(<<one>>) \o "))", L(<<Str(k * 1000 + n), Str(k * 1000 + (n % 9))>>)), own>>
EnvOp(k, own, i, j, o) ==
  LET n == O(k, j) v == Val(k, i) IN
  CASE o <= 2 -> <<Q("(environment-define e '" \o n \o " " \o v \o ")", "?V"), [own EXCEPT ![j] = v]>>
    [] o = 3 -> IF own[j] = None THEN <<Q("(environment-assign! e '" \o n \o " 1)", "!E"), own>> ELSE <<Q("(environment-assign! e '" \o n \o " " \o v \o ")", "?V"), [own EXCEPT ![j] = v]>>
    [] o = 4 -> <<Q("(eval '(define " \o n \o " " \o v \o ") e)", v), [own EXCEPT ![j] = v]>>
    [] o = 5 -> IF own[j] = None THEN <<Q("(environment-bound? e '" \o n \o ")", "#f"), own>> ELSE <<Q("(begin (eval '(set! " \o n \o " (+ 1 " \o n \o ")) e) (eval '(- " \o n \o " 1) e))", own[j]), [own EXCEPT ![j] = "+"]>>
    [] o = 6 -> <<Q("(map (lambda (s) (environment-bound? e s)) " \o Quoted(k) \o ")", Marks(own)), own>>
    [] o = 7 -> <<Q("(let ((ns (environment-bound-names e))) (map (lambda (s) (if (memq s ns) #t #f)) " \o Quoted(k) \o "))", Marks(own)), own>>
    [] o = 8 -> <<Q("(let ((b (environment-bindings e))) (map (lambda (s) (let ((x (assoc s b))) (if (nil? x) '() (cadr x)))) " \o Quoted(k) \o "))", L(Vals(own))), own>>
    [] o = 9 -> <<Q("(list (eval 'p1 e) (environment-lookup e 'p2) (environment-bound? e 'p1))", "(1 2 #t)"), own>>
    [] o = 10 -> <<Q("(eval '(let ((" \o n \o " 5)) (set! " \o n \o " (+ " \o n \o " 1)) " \o n \o ") e)", "6"), own>>
    [] o = 11 -> <<Q("(eval '(list (add " \o v \o ") p1) e)", L(<<Str(1000 * k + i + 1), "1">>)), own>>
    [] o = 12 -> <<Q("(eval '" \o n \o " e)", own[j]), own>>
    [] o = 13 -> <<Q("(environment-assigned? e '" \o n \o ")", Bool(own[j] # None)), own>>
    [] o = 14 -> <<Q("(>= (length (environment-bound-names e)) " \o Str(3 + Count(own)) \o ")", "#t"), own>>
Op(k, own, i, j, o) == CASE MODE = "frame" -> FrameOp(k, own, i, j, o) [] MODE = "call" -> CallOp(k, own, i, j, o) [] OTHER -> EnvOp(k, own, i, j, o)
\* "+": one more than the session's last value: looked up and set anew at once
RECURSIVE Ops(_, _, _)
Ops(k, own, i) ==
  IF i > LEN THEN <<>>
  ELSE LET x == CHOOSE r \in {Op(k, own, i, RE(1..3), RE(1..14))} : TRUE
           plus == {j \in 1..3 : x[2][j] = "+"} IN
       IF plus = {} THEN <<x[1]>> \o Ops(k, x[2], i + 1)
       ELSE LET j == CHOOSE j \in plus : TRUE v == Val(k, 500 + i) IN
            <<x[1], Q("(environment-assign! e '" \o O(k, j) \o " " \o v \o ")", "?V")>> \o Ops(k, [x[2] EXCEPT ![j] = v], i + 1)
\* a session starts and ends without any of its parts
Clear(k) == CASE MODE = "frame" -> << <<"(begin (define c {q*: f}) (remove-slot! f " \o O(k, 1) \o ":) (remove-slot! f " \o O(k, 2) \o ":) (remove-slot! f " \o O(k, 3) \o ":) 1)", "1">> >>
              [] MODE = "env" -> << <<"(begin (environment-define e '" \o O(k, 1) \o " 0) (environment-define e '" \o O(k, 2) \o " 0) (environment-define e '" \o O(k, 3) \o " 0) 1)", "1">> >>
              [] OTHER -> <<>>
Start(k) == IF MODE = "env" THEN <<"0", "0", "0">> ELSE <<None, None, None>>
Session(k) == Clear(k) \o Ops(k, Start(k), 1)
Prelude == CASE MODE = "frame" -> << Q("(begin (define f {p1: 1 p2: 2 put: (lambda (s v) (set-slot! self s v)) got: (lambda (s) (get-slot-or-nil self s)) len: (lambda (l) (length l))}) 1)", "1"),
                                     Q("(begin (define (clone-data g) (let ((h (clone g))) (remove-slot! h put:) (remove-slot! h got:) (remove-slot! h len:) h)) 1)", "1") >>
             [] MODE = "env" -> << Q("(begin (define e (make-top-level-environment '(p1 p2 add) (list 1 2 (lambda (x) (+ x 1))))) 1)", "1") >>
             [] OTHER -> << Q("(begin (define (all . r) r) (define (more x . r) (list x r)) (define (forked p x . r) (list x r)) (define (twice acc x) (cons x (cons x acc))) (define (adder n) (lambda (x) (+ n x))) 1)", "1"),
                            Q("(begin (define (local n l) (let loop ((i 0) (m '()) (k l)) (if (nil? k) (list n (reverse m) i) (loop (+ i 1) (cons (car k) m) (cdr k))))) (defmacro (mac a . r) `(list ,a ',r)) (define (count n b) (if (== n 0) b (+ 1 (count (- n 1) b)))) 1)", "1") >>
After == CASE MODE = "frame" -> << Q("(list (p1: f) (p2: f) (len:> f '(1 2 3)))", "(1 2 3)") >> [] MODE = "env" -> << Q("(eval '(list p1 p2 (add 1)) e)", "(1 2 2)") >> [] OTHER -> << Q("(all 1 2)", "(1 2)") >>
VARIABLE i
Init == i = 0
Next == /\ i < GROUPS /\ i' = i + 1
        /\ Serialize(ToJson([id |-> MODE, s |-> Prelude, g |-> [s \in 1..K |-> Session(s)], a |-> After]) \o "\n", Out,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Spec == Init /\ [][Next]_i
=============================================================================
