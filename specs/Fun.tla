--------------------------------- MODULE Fun ----------------------------------
(* A function is what its definition says: its parameters decide which calls it  *)
(* takes and what they bind, by whatever name and in whatever way it is called;   *)
(* definition-of gives the definition back, and that makes the same function.     *)
EXTENDS Emit, Integers, FiniteSets, SequencesExt
CONSTANTS DEPTH, RANDOM
VARIABLES def,    \* name -> the definition its function was made by; <<>>: none
          steps
vars == <<def, steps>>
RE(S) == RandomElement(S)
Names == {"fa", "fb", "fc"}
\* a definition: np parameters, and a rest parameter or not, a body, a way of defining; as: the name the function has got (unnamed: of its own it has none)
Par(d) == SubSeq(<<"x", "y", "z">>, 1, d.np)
Params(d) == (IF d.np = 0 THEN (IF d.rest THEN ". r" ELSE "") ELSE JoinWith(Par(d), " ") \o (IF d.rest THEN " . r" ELSE ""))
All(d) == Par(d) \o (IF d.rest THEN <<"r">> ELSE <<>>)
Bodies == 7
\* quoted, as it is written or (long) as the harness prints it
Qt(long, x) == IF long THEN "(quote " \o x \o ")" ELSE "'" \o x
Body(d, long) == CASE d.body = 1 -> "(list " \o Qt(long, "f") \o JoinWith(<<"">> \o All(d), " ") \o ")"
             [] d.body = 2 -> "(vprobe " \o Qt(long, "in") \o ") (+ 1 2)"
             [] d.body = 3 -> ""
             [] d.body = 4 -> Qt(long, "(a \"s\" (1 . b) #t)")
             [] d.body = 5 -> "(if (nil? (list" \o JoinWith(<<"">> \o All(d), " ") \o ")) " \o Qt(long, "none") \o " (length (list" \o JoinWith(<<"">> \o All(d), " ") \o ")))"
             [] d.body = 6 -> "(let ((k 2)) (set! k (+ k 1)) k) ((lambda (q . s) (list s q)) 1 2)"
             [] OTHER -> IF long THEN "(quasiquote (a (unquote (+ 1 1)) (unquote-splicing (list 3 4))))" ELSE "`(a ,(+ 1 1) ,@(list 3 4))"
\* what a call with the arguments as (texts) yields
Result(d, as) == LET rest == Paren(SubSeq(as, d.np + 1, Len(as))) all == SubSeq(as, 1, d.np) \o (IF d.rest THEN <<rest>> ELSE <<>>) IN
  CASE d.body = 1 -> Paren(<<"f">> \o all) [] d.body = 2 -> "3" [] d.body = 3 -> "()" [] d.body = 4 -> "(a \"s\" (1 . b) #t)" [] d.body = 5 -> (IF all = <<>> THEN "none" ELSE Str(Len(all))) [] d.body = 6 -> "((2) 1)" [] OTHER -> "(a 2 3 4)"
Takes(d, n) == IF d.rest THEN n >= d.np ELSE n = d.np
Sp(b) == IF b = "" THEN "" ELSE " " \o b
Lambda(d, long) == "(lambda (" \o Params(d) \o ")" \o Sp(Body(d, long)) \o ")"
Named(f, d, long) == "(define (" \o f \o (IF Params(d) = "" THEN "" ELSE " " \o Params(d)) \o ")" \o Sp(Body(d, long)) \o ")"
Forms == 7
Define(f, d) == CASE d.form = 1 -> Named(f, d, FALSE)
                  [] d.form = 2 -> "(define " \o f \o " " \o Lambda(d, FALSE) \o ")"
                  [] d.form = 3 -> "(define " \o f \o " (let ((h " \o Lambda(d, FALSE) \o ")) h))"
                  [] d.form = 4 -> "(define " \o f \o " (let () " \o Named("inner", d, FALSE) \o " inner))"
                  [] d.form = 5 -> "(define " \o f \o " (get-slot {m: " \o Lambda(d, FALSE) \o "} m:))"
                  [] d.form = 7 -> "(define " \o f \o " (named-lambda (inner" \o Sp(Params(d)) \o ")" \o Sp(Body(d, FALSE)) \o "))"
                  [] OTHER -> "(eval '" \o Named(f, d, FALSE) \o ")"
Lambdas == {2, 3, 5}
Given(f, d) == [d EXCEPT !.as = CASE d.form \in Lambdas -> "unnamed" [] d.form \in {4, 7} -> "inner" [] OTHER -> f]
Definition(f, d) == IF d.as = "unnamed" THEN "(define " \o f \o " " \o Lambda(d, TRUE) \o ")" ELSE Named(d.as, d, TRUE)
Proper(d) == d.form \in Lambdas => ~(d.np = 0 /\ d.rest)        \* (lambda r ...) is not taken
Q(src, e) == << <<src, e>> >>
Args(n) == [i \in 1..n |-> Str(i * 10)]
Probed(n) == JoinWith(<<"">> \o [i \in 1..n |-> "(vprobe " \o Str(i * 10) \o ")"], " ")
Given2(n) == JoinWith(<<"">> \o Args(n), " ")
Ways == 9
\* a call of the function g (an expression) with n arguments, way w
Call2(g, n, w) == CASE w = 1 -> "(" \o g \o Probed(n) \o ")"
                    [] w = 2 -> "(apply " \o g \o " (list" \o Given2(n) \o "))"
                    [] w = 3 -> "(let ((h " \o g \o ")) (h" \o Probed(n) \o "))"
                    [] w = 4 -> "(join (fork (lambda (p) (" \o g \o Given2(n) \o "))))"
                    [] w = 5 -> "(eval (list " \o g \o Given2(n) \o "))"
                    [] w = 6 -> "(car (map (lambda (i) (" \o g \o Given2(n) \o ")) (list 1)))"
                    [] w = 7 -> "(let ((fr {m: " \o g \o "})) (m:> fr" \o Given2(n) \o "))"
                    [] w = 8 -> "((car (list " \o g \o "))" \o Probed(n) \o ")"
                    [] OTHER -> (IF n = 0 THEN "(" \o g \o ")" ELSE "(apply " \o g \o JoinWith(<<"">> \o SubSeq(Args(n), 1, n - 1), " ") \o " (list " \o Args(n)[n] \o "))")
\* an argument is evaluated only by a call that is taken; a process that fails has the empty list for a result
Ask(g, d, n, w) == LET ok == Takes(d, n) IN
   Q(Call2(g, n, w), IF ok THEN Result(d, Args(n)) ELSE IF w = 4 THEN "()" ELSE "!E") \o Q("(vlog)", Paren((IF ok /\ w \in {1, 3, 8} THEN Args(n) ELSE <<>>) \o (IF ok /\ d.body = 2 THEN <<"in">> ELSE <<>>)))
Show(f, d) == Q("(definition-of " \o f \o ")", Definition(f, d))
\* the definition makes the same function, also when it is written and read
Again(f, d, n, text) == LET nm == IF d.as = "unnamed" THEN f ELSE d.as IN
   Q("(let ((e (make-top-level-environment '(vq) '(1))) (d " \o (IF text THEN "(parse (str (list (definition-of " \o f \o "))))" ELSE "(list (definition-of " \o f \o "))") \o ")) (eval (car d) e) (eval '(" \o nm \o Given2(n) \o ") e))", IF Takes(d, n) THEN Result(d, Args(n)) ELSE "!E") \o Q("(vlog)", IF Takes(d, n) /\ d.body = 2 THEN "(in)" ELSE "()")
Same(f, g) == def[f] = def[g]
Prelude == Q("(begin (vclear) (define fa 1) (define fb 1) (define fc 1) (define keep 1) 1)", "1")
Init == def = [f \in Names |-> <<>>] /\ steps = Prelude
Pick(S) == IF RANDOM THEN {RE(S)} ELSE S
AllDefs == {d \in [np : 0..3, rest : BOOLEAN, body : 1..Bodies, form : 1..Forms, as : {""}, id : {0}] : Proper(d)}
\* ---- every definition, every call
Small == ~RANDOM /\ def["fa"] = <<>> /\ \E d \in AllDefs : def' = [def EXCEPT !["fa"] = <<Given("fa", d)>>] /\ steps' = steps \o Q(Define("fa", d), "*") \o Show("fa", Given("fa", d))
Calls == ~RANDOM /\ def["fa"] # <<>> /\ UNCHANGED def /\ LET d == def["fa"][1] IN
   \E n \in 0..5 : \/ \E w \in 1..Ways : steps' = steps \o Ask("fa", d, n, w) \o Show("fa", d)
                   \/ \E t \in BOOLEAN : steps' = steps \o Again("fa", d, n, t)
\* ---- many of them
Make == RANDOM /\ \E f \in {RE(Names)}, d \in {RE(AllDefs)} : \E d2 \in {[Given(f, d) EXCEPT !.id = Len(steps)]} : def' = [def EXCEPT ![f] = <<d2>>] /\ steps' = steps \o Q(Define(f, d), "*") \o Show(f, d2)
Alias == RANDOM /\ \E f \in {RE(Names)}, g \in {RE(Names)} : def[f] # <<>> /\ def' = [def EXCEPT ![g] = def[f]] /\ steps' = steps \o Q("(set! " \o g \o " " \o f \o ")", "?V")
Use == RANDOM /\ UNCHANGED def /\ \E f \in {RE(Names)}, n \in {RE(0..5)}, w \in {RE(1..Ways)} : def[f] # <<>> /\ steps' = steps \o Ask(f, def[f][1], n, w)
See == RANDOM /\ UNCHANGED def /\ \E f \in {RE(Names)} : def[f] # <<>> /\ steps' = steps \o Show(f, def[f][1])
Copy == RANDOM /\ UNCHANGED def /\ \E f \in {RE(Names)}, n \in {RE(0..4)}, t \in {RE(BOOLEAN)} : def[f] # <<>> /\ steps' = steps \o Again(f, def[f][1], n, t)
Compare == RANDOM /\ UNCHANGED def /\ \E f \in {RE(Names)}, g \in {RE(Names)} : def[f] # <<>> /\ def[g] # <<>> /\ steps' = steps \o Q("(list (eq? " \o f \o " " \o g \o ") (function? " \o f \o "))", Paren(<<Bool(Same(f, g)), "#t">>))
Anonymous == RANDOM /\ UNCHANGED def /\ \E d \in {RE(AllDefs)} : Proper([d EXCEPT !.form = 2]) /\ steps' = steps \o Q("(definition-of " \o Lambda(d, FALSE) \o ")", Definition("anonymous", [d EXCEPT !.as = "unnamed"]))
None == RANDOM /\ UNCHANGED def /\ \E x \in {RE({"car", "if", "5", "\"s\"", "'fa", "'()", "(list 1)", "vundefined", "{a: 1}", ""})} : steps' = steps \o Q("(definition-of " \o x \o ")", "!E")
Next == Small \/ Calls \/ Make \/ Alias \/ Use \/ See \/ Copy \/ Compare \/ Anonymous \/ None
Spec == Init /\ [][Next]_vars
\* ---- the design: a call that is taken binds every parameter, one that is not binds none; a definition tells its functions apart
Bound == \A f \in Names : def[f] = <<>> \/ LET d == def[f][1] IN \A n \in 0..5 : Takes(d, n) => n >= d.np /\ (~d.rest => n = d.np)
Told == \A f, g \in Names : def[f] = <<>> \/ def[g] = <<>> \/ f = g \/ (Definition(f, def[f][1]) = Definition(f, def[g][1]) => \A n \in 0..5 : Takes(def[f][1], n) = Takes(def[g][1], n))
View == def
Bounded == TRUE
BoundedNext == TRUE
EmitEdge == (RANDOM \/ def' # def) \/ EmitSteps("e", steps')
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
