-------------------------------- MODULE Keep --------------------------------
(* A value keeps its type and its identity wherever it is kept: in variables,  *)
(* slots, list cells, channels, alists, environments, closures, and through     *)
(* calls, processes, quoting and evaluation.                                    *)
(* obj: the values made so far, [k |-> kind, n |-> what it holds]; var and      *)
(* place: what is kept where (indices into obj, 0: nothing).                    *)
EXTENDS Emit, FiniteSets, SequencesExt
CONSTANTS DEPTH, RANDOM
VARIABLES obj, var, place, q, steps
vars == <<obj, var, place, q, steps>>
RE(S) == RandomElement(S)
Q(src, e) == << <<src, e>> >>

Kinds == {"int", "float", "str", "sym", "naked", "true", "false", "list", "nil", "fn", "prim", "form", "macro", "frame", "bytes", "chan", "atom", "env", "dot", "alist", "port", "proc", "eof", "whole", "neg", "estr", "eframe", "ebytes", "big"}
Make(k, n) == CASE k = "int" -> Str(n) [] k = "float" -> Str(n) \o ".5" [] k = "str" -> "(str \"s" \o Str(n) \o "\")" [] k = "sym" -> "'y" \o Str(n) [] k = "naked" -> "y" \o Str(n) \o ":" [] k = "true" -> "#t" [] k = "false" -> "#f"
                [] k = "list" -> "(list " \o Str(n) \o " 'e)" [] k = "nil" -> "'()" [] k = "fn" -> "(lambda (x) (+ x " \o Str(n) \o "))" [] k = "prim" -> "car" [] k = "form" -> "if" [] k = "macro" -> "vmac" [] k = "frame" -> "(make-frame n: " \o Str(n) \o ")"
                [] k = "bytes" -> "(list-to-bytearray (list " \o Str(n) \o " 9))" [] k = "chan" -> "(make-channel " \o Str(n + 1) \o ")" [] k = "atom" -> "(atomic " \o Str(n) \o ")" [] k = "env" -> "(make-top-level-environment '(n) '(" \o Str(n) \o "))"
                [] k = "dot" -> "(cons " \o Str(n) \o " 'e)" [] k = "alist" -> "(acons 'k " \o Str(n) \o " '())" [] k = "port" -> "(open-input-file (vfn 1))" [] k = "proc" -> "(fork (lambda (p) " \o Str(n) \o "))" [] k = "whole" -> "(* 1.0 " \o Str(n) \o ")" [] k = "neg" -> "(- 0 " \o Str(n) \o ".25)" [] k = "estr" -> "\"\"" [] k = "eframe" -> "{}" [] k = "ebytes" -> "[]" [] k = "big" -> "(- 9223372036854775807 " \o Str(n) \o ")"
                [] k = "eof" -> "(call-with-input-string \"\" read)"
\* how it looks from outside
Look(k) == CASE k \in {"int", "float", "str", "sym", "naked", "true", "false", "list", "nil", "dot", "frame", "bytes", "alist", "whole", "neg", "estr", "eframe", "ebytes", "big"} -> "@" [] k = "atom" -> "(atomic-load @)" [] k = "env" -> "(environment-lookup @ 'n)" [] k = "fn" -> "(@ 1)" [] k = "prim" -> "(@ '(6))"
             [] k = "form" -> "(@ #t 1 (vprobe 1))" [] k = "chan" -> "(let ((r (channel-try-write @ 1))) (channel-try-read @) r)" [] k = "macro" -> "(macro? @)" [] k = "port" -> "(port? @)" [] k = "proc" -> "(notnil? @)" [] OTHER -> "(eof-object? @)"
Shows(k, n) == CASE k \in {"int", "atom", "env"} -> Str(n) [] k = "float" -> Str(n) \o ".5f" [] k = "whole" -> Str(n) \o "f" [] k = "neg" -> "-" \o Str(n) \o ".25f" [] k = "estr" -> "\"\"" [] k = "eframe" -> "{}" [] k = "ebytes" -> "[]" [] k = "big" -> "922337203685477" \o Str(5807 - n) [] k = "str" -> "\"s" \o Str(n) \o "\"" [] k = "sym" -> "y" \o Str(n) [] k = "naked" -> "y" \o Str(n) \o ":" [] k = "false" -> "#f" [] k = "list" -> "(" \o Str(n) \o " e)" [] k = "nil" -> "()"
                 [] k = "dot" -> "(" \o Str(n) \o " . e)" [] k = "frame" -> "{n: " \o Str(n) \o "}" [] k = "bytes" -> "[" \o Str(n) \o " 9]" [] k = "alist" -> "((k . " \o Str(n) \o "))" [] k = "fn" -> Str(n + 1) [] k = "prim" -> "6" [] k = "form" -> "1" [] OTHER -> "#t"
\* changes it in place
Mutable == {"list", "frame", "bytes", "atom", "env", "dot"}
Change(k, n) == CASE k \in {"list", "dot"} -> "(set-car! @ " \o Str(n) \o ")" [] k = "frame" -> "(set-slot! @ n: " \o Str(n) \o ")" [] k = "bytes" -> "(replace-byte! @ 0 " \o Str(n) \o ")" [] k = "atom" -> "(atomic-store! @ " \o Str(n) \o ")" [] k = "env" -> "(environment-assign! @ 'n " \o Str(n) \o ")" [] OTHER -> "(acons 'k " \o Str(n) \o " @)"
\* which kinds each predicate is true of
Preds == << <<"atom?", {"int", "float", "str", "sym", "naked", "true", "false", "eof", "whole", "neg", "estr", "big"}>>, <<"list?", {"list", "nil", "dot"}>>, <<"pair?", {"list", "nil", "dot"}>>, <<"alist?", {"alist", "nil"}>>, <<"nil?", {"nil"}>>, <<"null?", {"nil"}>>,
            <<"notnil?", Kinds \ {"nil"}>>, <<"notnull?", Kinds \ {"nil"}>>, <<"symbol?", {"sym", "naked", "eof"}>>, <<"string?", {"str", "estr"}>>, <<"integer?", {"int", "big"}>>, <<"number?", {"int", "big", "float", "whole", "neg"}>>, <<"float?", {"float", "whole", "neg"}>>, <<"function?", {"fn", "prim", "form"}>>,
            <<"macro?", {"macro"}>>, <<"frame?", {"frame", "eframe"}>>, <<"bytearray?", {"bytes", "ebytes"}>>, <<"port?", {"port"}>>, <<"boolean?", {"true", "false"}>>, <<"environment?", {"env"}>>, <<"eof-object?", {"eof"}>> >>
RowText == [k \in Kinds |-> IF k = "nil" THEN "?|(#f #t #t #t #t #t #f #f #f #f #f #f #f #f #f #f #f #f #f #f #f)||(#f #t #t #f #t #t #f #f #f #f #f #f #f #f #f #f #f #f #f #f #f)"   \* (whether nil is an alist is left open)
                         ELSE Paren([i \in 1..Len(Preds) |-> Bool(k \in Preds[i][2])])]
Types(x, k) == Q("(vtypes " \o x \o ")", RowText[k])
PredCalls == "(list " \o JoinWith([i \in 1..Len(Preds) |-> "(" \o Preds[i][1] \o " x)"], " ") \o ")"
Truth(x, k) == Q("(list (if " \o x \o " #t #f) (not " \o x \o "))", IF k \in {"nil", "false"} THEN "(#f #t)" ELSE "(#t #f)")
Fill(form, x) == "(let ((@ " \o x \o ")) " \o form \o ")"
See(x, o) == Q(Fill(Look(o.k), x), Shows(o.k, o.n))

Vars == <<"va", "vb", "vc", "vd">>
\* where values are kept: to put v there, to get it back
Places == << <<"(set-slot! vfr x: ", ")", "(get-slot vfr x:)">>, <<"(x:! vfr ", ")", "(x: vfr)">>, <<"(set-car! vcell ", ")", "(car vcell)">>, <<"(set-cdr! vpair ", ")", "(cdr vpair)">>, <<"(set-nth! vthree 3 ", ")", "(third vthree)">>, <<"(set! vthe ", ")", "vthe">>, <<"(define vdef ", ")", "vdef">>,
             <<"(set! val (acons 'p ", " val))", "(cdr (assoc 'p val))">>, <<"(environment-assign! venv 'z ", ")", "(environment-lookup venv 'z)">>, <<"(environment-define venv 'w ", ")", "(environment-lookup venv 'w)">>, <<"(vkeep ", ")", "(vkept)">>, <<"(set! vlist (list 1 ", " 3))", "(cadr vlist)">>,
             <<"(set! vfrm {a: ", " b: 1})", "(a: vfrm)">>, <<"(set! vproto (make-frame proto*: (make-frame a: ", ")))", "(a: vproto)">>, <<"(set! vthunk (let ((h ", ")) (lambda () h)))", "(vthunk)">>, <<"(set! vbq `(1 ,", " 2))", "(cadr vbq)">>, <<"(set! vbqs `(1 ,@(list ", ") 2))", "(cadr vbqs)">> >>
\* places that share one home: what is put into one is got from the other
Home(p) == IF p = 2 THEN 1 ELSE p
\* through which a value passes unchanged
Ways == << <<"(begin 1 ", ")">>, <<"(if #t ", " 1)">>, <<"(car (list ", "))">>, <<"((lambda (x) x) ", ")">>, <<"(apply (lambda (x . r) x) ", " '(1))">>, <<"(eval (list 'quote ", "))">>, <<"(car (map (lambda (x) x) (list ", " 2)))">>, <<"(let* ((x ", ") (y x)) y)">>, <<"(join (fork (lambda (p) ", ")))">>,
           <<"(cadr (list 1 ", "))">>, <<"(car (append (list ", ") '(1)))">>, <<"(cadr (reverse (list ", " 2)))">>, <<"(let loop ((n 2) (x ", ")) (if (eq? n 0) x (loop (- n 1) x)))">>, <<"(case 1 ((1) ", ") (else 2))">>, <<"(cond ((eq? 1 2) 3) (else ", "))">>, <<"(on-error ", " (lambda (e) 1))">>,
           <<"(let ((c (make-channel 1))) (channel-write c ", ") (car (channel-read c)))">>, <<"(let ((c (make-channel 1))) (channel-try-write c ", ") (cadr (channel-try-read c)))">>, <<"(general-car-cdr (list ", " 1) 3)">>, <<"(do ((i 0 (succ i))) ((eq? i 2) ", "))">>, <<"(nth (list 1 ", " 3) 2)">>, <<"(vsame ", ")">>,
           <<"(reduce (lambda (x y) y) 0 (list 1 ", "))">>, <<"(fold-left (lambda (x y) y) 0 (list ", "))">>, <<"(cdr (assoc 'k (pairlis '(k) (list ", "))))">>, <<"(letrec ((f (lambda () ", "))) (f))">>, <<"(let ((x 1)) (set! x ", ") x)">>, <<"(vmac2 ", ")">>, <<"(car (filter (lambda (x) #t) (list ", " 1)))">>,
           <<"(call-with-thunk (lambda () ", "))">>, <<"(get-slot (json-free {x: ", "}) x:)">>, <<"(list-ref (list 1 2 ", ") 2)">>, <<"(car (last-pair (list 1 ", ")))">>, <<"(car (sublist (list 1 ", " 2) 2 3))">>, <<"(find (lambda (x) #t) (list ", "))">>, <<"(cdr (cons 1 ", "))">>, <<"(third (make-list 3 ", "))">>,
           <<"(let ((f {g: (lambda (x) x)})) (g:> f ", "))">>, <<"(vopt 1 ", ")">>, <<"(or #f ", ")">>, <<"(and 1 ", ")">>, <<"(when #t ", ")">>, <<"(unless #f ", ")">>, <<"(car (drop 1 (list 2 ", ")))">>, <<"(cadr (cons* 1 ", " '()))">> >>
Prelude == Q("(begin (vclear) (vput (vfn 1) \"1\") (vput (vfn 5) \"\") (defmacro (vmac x) `(list ,x)) (defmacro (vmac2 x) `(car (list ,x))) (define (vsame x) x) (define (call-with-thunk t) (t)) (define (json-free f) f) (define (vopt a . r) (car r)) (define vfr (make-frame x: 1)) (define vcell (list 1 2)) (define vpair (list 1)) (define vthree (list 1 2 3)) (define vthe 1) (define vdef 1) (define val '()) (define venv (make-top-level-environment '(z) '(1))) (define vlist 1) (define vfrm 1) (define vproto 1) (define vthunk 1) (define vbq 1) (define vbqs 1) (define vkeep 1) (define vkept 1) (define vq (make-channel 4)) (define va 1) (define vb 1) (define vc 1) (define vd 1) (define (vtypes x) " \o PredCalls \o ") (let ((k 1)) (set! vkeep (lambda (x) (set! k x))) (set! vkept (lambda () k))) 1)", "1")
\* (an environment tells macros from values: environment-lookup-macro)
Fits(k, p) == k # "macro" \/ p \notin {9, 10}
In(p, x) == p[1] \o x \o p[2]
\* ---- equality of kept values: the same one, or of equal parts
Structural == {"int", "float", "str", "sym", "naked", "list", "dot", "frame", "bytes", "alist", "whole", "neg", "big"}
Single == {"estr", "eframe", "ebytes", "true", "false", "nil", "prim", "form", "macro", "eof"}
Same(i, j) == i = j \/ (obj[i].k = obj[j].k /\ (obj[i].k \in Single \/ (obj[i].k \in Structural /\ obj[i].n = obj[j].n)))
Pair(x, y, i, j) == Q("(list (eq? " \o x \o " " \o y \o ") (equal? " \o y \o " " \o x \o "))", IF Same(i, j) THEN "(#t #t)" ELSE "(#f #f)")
Observe(x, i) == Types(x, obj[i].k) \o Truth(x, obj[i].k) \o See(x, obj[i])
Src(k, n) == IF k = "eof" THEN "(let ((p (open-input-file (vfn 5)))) (let ((r (read p))) (close-port p) r))" ELSE Make(k, n)
Init == obj = << [k |-> "int", n |-> 1] >> /\ var = [i \in 1..4 |-> 1] /\ place = [p \in 1..Len(Places) |-> 0] /\ q = <<>> /\ steps = Prelude
\* ---- every kind of value, every place, every way
Small == ~RANDOM /\ Len(obj) = 1 /\ \E k \in Kinds : obj' = Append(obj, [k |-> k, n |-> 5]) /\ var' = [var EXCEPT ![1] = 2] /\ UNCHANGED <<place, q>> /\ steps' = steps \o Q("(set! va " \o Src(k, 5) \o ")", "?V")
Into == ~RANDOM /\ Len(obj) = 2 /\ var[2] = 1 /\ \E p \in 1..Len(Places) : /\ place[Home(p)] = 0 /\ Fits(obj[2].k, p) /\ (\A r \in 1..Len(Places) : place[r] = 0)
                                          /\ place' = [place EXCEPT ![Home(p)] = 2] /\ UNCHANGED <<obj, q, var>>
                                          /\ steps' = FlattenSeq(<<steps, Q(In(Places[p], "va"), "?V"), Observe(Places[p][3], 2), Pair("va", Places[p][3], 2, 2), Q("(set! vb " \o Places[p][3] \o ")", "?V"), Pair("va", "vb", 2, 2), (IF obj[2].k \in Mutable THEN Q(Fill(Change(obj[2].k, 8), "va"), "*") \o See(Places[p][3], [obj[2] EXCEPT !.n = 8]) \o Q(Fill(Change(obj[2].k, 9), Places[p][3]), "*") \o See("va", [obj[2] EXCEPT !.n = 9]) ELSE <<>>)>>)
Through == ~RANDOM /\ Len(obj) = 2 /\ var[2] = 1 /\ (\A r \in 1..Len(Places) : place[r] = 0)
           /\ \E w \in 1..Len(Ways) : var' = [var EXCEPT ![2] = 2] /\ UNCHANGED <<obj, place, q>>
              /\ steps' = FlattenSeq(<<steps, Q("(set! vb " \o In(Ways[w], "va") \o ")", "?V"), Observe("vb", 2), Pair("va", "vb", 2, 2), Observe(In(Ways[w], "va"), 2), (IF obj[2].k \in Mutable THEN Q(Fill(Change(obj[2].k, 8), "vb"), "*") \o See("va", [obj[2] EXCEPT !.n = 8]) ELSE <<>>)>>)
\* ---- long random runs
Lim == Len(steps) < DEPTH
Set(i, src) == Q("(set! " \o Vars[i] \o " " \o src \o ")", "?V")
NewOne == RANDOM /\ \E i \in {RE(1..4)}, k \in {RE(Kinds)}, n \in {RE(1..7)} : obj' = Append(obj, [k |-> k, n |-> n]) /\ var' = [var EXCEPT ![i] = Len(obj) + 1] /\ UNCHANGED <<place, q>> /\ steps' = steps \o Set(i, Src(k, n))
Move == RANDOM /\ \E i \in {RE(1..4)}, j \in {RE(1..4)}, w \in {RE(1..Len(Ways))} : var' = [var EXCEPT ![i] = var[j]] /\ UNCHANGED <<obj, place, q>> /\ steps' = steps \o Set(i, In(Ways[w], Vars[j]))
Put == RANDOM /\ \E j \in {RE(1..4)}, p \in {RE(1..Len(Places))} : Fits(obj[var[j]].k, p) /\ place' = [place EXCEPT ![Home(p)] = var[j]] /\ UNCHANGED <<obj, var, q>> /\ steps' = steps \o Q(In(Places[p], Vars[j]), "?V")
Get == RANDOM /\ \E i \in {RE(1..4)}, p \in {RE(1..Len(Places))} : place[Home(p)] # 0 /\ var' = [var EXCEPT ![i] = place[Home(p)]] /\ UNCHANGED <<obj, place, q>> /\ steps' = steps \o Set(i, Places[p][3])
Send == RANDOM /\ Len(q) < 4 /\ \E j \in {RE(1..4)} : q' = Append(q, var[j]) /\ UNCHANGED <<obj, var, place>> /\ steps' = steps \o Q("(channel-write vq " \o Vars[j] \o ")", "*")
Receive == RANDOM /\ q # <<>> /\ \E i \in {RE(1..4)} : q' = Tail(q) /\ var' = [var EXCEPT ![i] = Head(q)] /\ UNCHANGED <<obj, place>> /\ steps' = steps \o Set(i, "(car (channel-read vq))")
Mutate == RANDOM /\ \E j \in {RE(1..4)}, n \in {RE(1..7)} : obj[var[j]].k \in Mutable /\ obj' = [obj EXCEPT ![var[j]].n = n] /\ UNCHANGED <<var, place, q>> /\ steps' = steps \o Q(Fill(Change(obj[var[j]].k, n), Vars[j]), "*")
Look1 == RANDOM /\ UNCHANGED <<obj, var, place, q>> /\ \E j \in {RE(1..4)}, i \in {RE(1..4)} : steps' = steps \o Observe(Vars[j], var[j]) \o Pair(Vars[i], Vars[j], var[i], var[j])
Look2 == RANDOM /\ UNCHANGED <<obj, var, place, q>> /\ \E p \in {RE(1..Len(Places))}, i \in {RE(1..4)} : place[Home(p)] # 0 /\ steps' = steps \o Observe(Places[p][3], place[Home(p)]) \o Pair(Vars[i], Places[p][3], var[i], place[Home(p)])
Next == Small \/ Into \/ Through \/ NewOne \/ Move \/ Put \/ Get \/ Send \/ Receive \/ Mutate \/ Look1 \/ Look2
Spec == Init /\ [][Next]_vars
View == <<obj, var, place, q>>
Bounded == TRUE
BoundedNext == TRUE
TypeOK == /\ \A i \in 1..Len(obj) : obj[i].k \in Kinds
          /\ \A i \in 1..4 : var[i] \in 1..Len(obj)
          /\ \A p \in 1..Len(Places) : place[p] \in 0..Len(obj)
          /\ \A i \in 1..Len(q) : q[i] \in 1..Len(obj)
\* the table of predicates: every kind is told apart from every other, up to the choices the language makes
Row(k) == [i \in 1..Len(Preds) |-> k \in Preds[i][2]]
Alike == {{"int", "big"}, {"float", "whole", "neg"}, {"str", "estr"}, {"frame", "eframe"}, {"bytes", "ebytes"}, {"sym", "naked"}, {"true", "false"}, {"list", "dot"}, {"fn", "prim", "form"}, {"chan", "atom", "proc"}}
Apart == Len(obj) > 1 \/ \A a, b \in Kinds : Row(a) = Row(b) => a = b \/ \E S \in Alike : a \in S /\ b \in S
EmitEdge == RANDOM \/ (place' = place /\ var'[2] = 1) \/ EmitSteps("e", steps')
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
