------------------------------- MODULE SymSeq -------------------------------
(* Names and symbols: a name denotes one symbol however it is come by; generated *)
(* symbols differ from all generated before with the same prefix.                *)
EXTENDS Emit
CONSTANTS NAMES, PREFIXES, DEPTH, NV, RANDOM
VARIABLES nv, name, gen, val, steps
\* variable k holds the symbol called name[k], or one generated with the prefix gen[k]; val: name -> value it is bound to, 0 if not
vars == <<nv, name, gen, val, steps>>
V(k) == "v" \o Str(k)
Pick(S) == IF RANDOM THEN {RandomElement(S)} ELSE S
Init == nv = 0 /\ name = [k \in 1..NV |-> ""] /\ gen = [k \in 1..NV |-> ""] /\ val = [n \in NAMES |-> 0]
        /\ steps = << <<"(begin (define fresh (str (vfresh))) (defmacro (the s) `(quote ,s)) (define fr {a: 1}) 1)", "1">>,
                      <<"(define (prefixed? p s) (or (== (string-length p) 0) (equal? p (substring s 0 (string-length p)))))", "?V">> >>
Add(ss) == steps' = steps \o ss
\* the ways to come by the symbol called n
Naked == {"k:", "other-key:"}
Ways(n) == LET q == "\"" \o n \o "\"" IN
  {"(quote " \o n \o ")", "'" \o n, "(intern " \o q \o ")", "(intern (str (substring " \o q \o " 0 1) (substring " \o q \o " 1 (string-length " \o q \o "))))",
   "(car '(" \o n \o " z))", "(cadr `(1 " \o n \o "))", "(car (car '((" \o n \o "))))", "(the " \o n \o ")", "(eval '(quote " \o n \o "))", "(car (parse \"(" \o n \o " 2)\"))",
   "(let ((x '" \o n \o ")) x)", "((lambda (s) s) '" \o n \o ")", "(car (map (lambda (s) s) '(" \o n \o ")))", "(list-ref (append '(1) '(" \o n \o ")) 1)"} \cup (IF n \in Naked THEN {n, "(car (list " \o n \o "))"} ELSE {})
Same(k, n) == [j \in 1..(k-1) |-> <<"(list (vsame? " \o V(j) \o " " \o V(k) \o ") (eq? " \o V(j) \o " " \o V(k) \o "))",
                                    IF gen[j] # "" THEN "(#f #f)" ELSE Paren(<<Bool(name[j] = n), Bool(name[j] = n)>>)>>]
Get == /\ nv < NV
       /\ \E n \in Pick(NAMES) : \E w \in Pick(Ways(n)) : LET k == nv + 1 IN
          /\ nv' = k /\ name' = [name EXCEPT ![k] = n] /\ UNCHANGED <<gen, val>>
          /\ Add(<< <<"(begin (define " \o V(k) \o " " \o w \o ") (symbol? " \o V(k) \o "))", "#t">>, <<V(k), n>> >> \o Same(k, n))
\* a prefix, as a string or as a symbol
PrefixArg(p, how) == CASE p = "GENSYM" -> "" [] how = 1 -> " (str \"" \o p \o "\" fresh)" [] how = 2 -> " (intern (str \"" \o p \o "\" fresh))"
Generate == /\ nv < NV
       /\ \E p \in Pick(PREFIXES), how \in Pick({1, 2}), nk \in Pick({TRUE, FALSE}) : LET k == nv + 1 IN
          /\ nv' = k /\ gen' = [gen EXCEPT ![k] = p] /\ UNCHANGED <<name, val>>
          /\ Add(<< <<"(begin (define " \o V(k) \o " (" \o (IF nk THEN "gensym-naked" ELSE "gensym") \o PrefixArg(p, how) \o ")) (list (symbol? " \o V(k) \o ") (prefixed? "
                       \o (IF p = "GENSYM" THEN "\"GENSYM\"" ELSE "(str \"" \o p \o "\" fresh)") \o " (str " \o V(k) \o "))))", "(#t #t)">> >>
                 \o [j \in 1..nv |-> <<"(list (eq? " \o V(j) \o " " \o V(k) \o ") (equal? (str " \o V(j) \o ") (str " \o V(k) \o ")))", "(#f #f)">>])
\* a symbol, however come by, is a name of the same variable
Bind == \E k \in Pick(1..NV), v \in {1, 2} : k <= nv /\ gen[k] = "" /\ name[k] \notin Naked /\ UNCHANGED <<nv, name, gen>>
          /\ val' = [val EXCEPT ![name[k]] = v] /\ Add(<< <<"(begin (eval (list 'define " \o V(k) \o " " \o Str(v) \o ")) 1)", "1">> >>)
Read == \E n \in Pick(NAMES \ Naked) : UNCHANGED <<nv, name, gen, val>> /\ val[n] # 0
          /\ Add(<< <<n, Str(val[n])>>, <<"(eval (intern \"" \o n \o "\"))", Str(val[n])>> >>)
\* a generated symbol is a variable of its own
GenVar == \E k \in Pick(1..NV) : k <= nv /\ gen[k] # "" /\ UNCHANGED <<nv, name, gen, val>>
          /\ Add(<< <<"(if (equal? (substring (str " \o V(k) \o ") (- (string-length (str " \o V(k) \o ")) 1) (string-length (str " \o V(k) \o "))) \":\") 'own (eval (list 'let (list (list " \o V(k) \o " ''own)) " \o V(k) \o ")))", "own">> >>)
Misuse == UNCHANGED <<nv, name, gen, val>> /\ \E s \in Pick({"(intern 5)", "(intern 'a)", "(intern '())", "(intern)", "(gensym 5)", "(gensym '(a))", "(gensym 1.5)", "(gensym \"a\" \"b\")", "(gensym-naked 5)", "(gensym-naked \"a\" 1)", "(gensym #t)"}) : Add(<< <<s, "!E">> >>)
Rest == RANDOM /\ nv = NV /\ UNCHANGED <<nv, name, gen, val>> /\ Add(<< <<"1", "1">> >>)
Next == Get \/ Generate \/ Bind \/ Read \/ GenVar \/ Misuse \/ Rest
Spec == Init /\ [][Next]_vars
View == <<nv, name, gen, val>>
Bounded == TRUE
BoundedNext == Len(steps') < DEPTH
EmitEdge == EmitSteps("e", steps')
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
