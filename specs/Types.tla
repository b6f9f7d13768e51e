------------------------------- MODULE Types -------------------------------
(* A builtin that needs an argument of a certain type gives an error when it is   *)
(* given anything else there, whatever its other arguments are: all arguments are  *)
(* evaluated once, in order, and nothing that they share with the program changes. *)
EXTENDS Emit, Integers, FiniteSets
CONSTANTS RANDOM, DEPTH
VARIABLES row, chan, steps    \* chan: what the channel of the program holds
vars == <<row, chan, steps>>
RE(S) == RandomElement(S)
\* name, and for each argument one that is right and the type that is needed
Rows == <<
  <<"%", <<<<"7", "I">>, <<"3", "I">>>>>>, <<"*", <<<<"2", "N">>, <<"3", "N">>>>>>, <<"+", <<<<"2", "N">>, <<"3", "N">>>>>>, <<"-", <<<<"2", "N">>, <<"3", "N">>>>>>,
  <<"/", <<<<"6", "N">>, <<"3", "N">>>>>>, <<"quotient", <<<<"6", "N">>, <<"3", "N">>>>>>, <<"modulo", <<<<"7", "I">>, <<"3", "I">>>>>>, <<"<", <<<<"1", "N">>, <<"2", "N">>>>>>,
  <<"<=", <<<<"1", "N">>, <<"2", "N">>>>>>, <<">", <<<<"1", "N">>, <<"2", "N">>>>>>, <<">=", <<<<"1", "N">>, <<"2", "N">>>>>>, <<"abs", <<<<"1", "N">>>>>>,
  <<"alist", <<<<"(list (cons 1 2))", "L">>>>>>, <<"any", <<<<"odd?", "F">>, <<"(list 1)", "L">>>>>>, <<"every", <<<<"odd?", "F">>, <<"(list 1)", "L">>>>>>, <<"append-bytes", <<<<"[1]", "BY">>, <<"[2]", "BI">>>>>>,
  <<"append-bytes!", <<<<"[1]", "BY">>, <<"[2]", "BI">>>>>>, <<"apply", <<<<"+", "F">>, <<"(list 1 2)", "L">>>>>>, <<"assoc", <<<<"'a", "A">>, <<"(acons 'a 1 '())", "L">>>>>>, <<"assq", <<<<"'a", "A">>, <<"(acons 'a 1 '())", "L">>>>>>,
  <<"assv", <<<<"'a", "A">>, <<"(acons 'a 1 '())", "L">>>>>>, <<"rassoc", <<<<"'a", "A">>, <<"(acons 'a 1 '())", "L">>>>>>, <<"dissoc", <<<<"'a", "A">>, <<"(acons 'a 1 '())", "L">>>>>>, <<"atomic", <<<<"1", "I">>>>>>,
  <<"atomic-add!", <<<<"AT", "AT">>, <<"1", "I">>>>>>, <<"atomic-compare-and-swap!", <<<<"AT", "AT">>, <<"1", "I">>, <<"2", "I">>>>>>, <<"atomic-load", <<<<"AT", "AT">>>>>>, <<"atomic-store!", <<<<"AT", "AT">>, <<"1", "I">>>>>>,
  <<"atomic-swap!", <<<<"AT", "AT">>, <<"1", "I">>>>>>, <<"binary-and", <<<<"1", "I">>, <<"2", "I">>>>>>, <<"binary-or", <<<<"1", "I">>, <<"2", "I">>>>>>, <<"binary-not", <<<<"1", "I">>>>>>,
  <<"left-shift", <<<<"1", "I">>, <<"1", "I">>>>>>, <<"right-shift", <<<<"4", "I">>, <<"1", "I">>>>>>, <<"bits->float", <<<<"1", "I">>>>>>, <<"float->bits", <<<<"1.5", "FL">>>>>>,
  <<"bytearray->list", <<<<"[1]", "BY">>>>>>, <<"bytearray-to-list", <<<<"[1]", "BY">>>>>>, <<"ceiling", <<<<"1.5", "N">>>>>>, <<"floor", <<<<"1.5", "N">>>>>>,
  <<"float", <<<<"1", "N">>>>>>, <<"integer", <<<<"1.5", "N">>>>>>, <<"sin", <<<<"1", "N">>>>>>, <<"cos", <<<<"1", "N">>>>>>,
  <<"tan", <<<<"1", "N">>>>>>, <<"asin", <<<<"1", "N">>>>>>, <<"acos", <<<<"1", "N">>>>>>, <<"atan", <<<<"1", "N">>>>>>,
  <<"sinh", <<<<"1", "N">>>>>>, <<"cosh", <<<<"1", "N">>>>>>, <<"tanh", <<<<"1", "N">>>>>>, <<"exp", <<<<"1", "N">>>>>>,
  <<"cbrt", <<<<"8", "N">>>>>>, <<"sqrt", <<<<"4", "N">>>>>>, <<"log", <<<<"1", "N">>>>>>, <<"channel-read", <<<<"CH", "CH">>>>>>,
  <<"channel-try-read", <<<<"CH", "CH">>>>>>, <<"channel-try-write", <<<<"CH", "CH">>, <<"1", "A">>>>>>, <<"channel-write", <<<<"CH", "CH">>, <<"1", "A">>>>>>, <<"close-channel", <<<<"CH", "CH">>>>>>,
  <<"make-channel", <<<<"1", "I">>>>>>, <<"clone", <<<<"{a: 1}", "FR">>>>>>, <<"frame-keys", <<<<"{a: 1}", "FR">>>>>>, <<"frame-values", <<<<"{a: 1}", "FR">>>>>>,
  <<"get-slot", <<<<"{a: 1}", "FR">>, <<"a:", "SL">>>>>>, <<"get-slot-or-nil", <<<<"{a: 1}", "FR">>, <<"a:", "SL">>>>>>, <<"has-slot?", <<<<"{a: 1}", "FR">>, <<"a:", "SL">>>>>>, <<"set-slot!", <<<<"{a: 1}", "FR">>, <<"a:", "SL">>, <<"2", "A">>>>>>,
  <<"send", <<<<"{a: (lambda () 1)}", "FR">>, <<"a:", "SL">>>>>>, <<"make-frame", <<<<"a:", "SL">>, <<"1", "A">>>>>>, <<"complement", <<<<"(list 1)", "L">>, <<"(list 2)", "L">>>>>>, <<"union", <<<<"(list 1)", "L">>, <<"(list 2)", "L">>>>>>,
  <<"intersection", <<<<"(list 1)", "L">>, <<"(list 2)", "L">>>>>>, <<"drop", <<<<"1", "I">>, <<"(list 1 2)", "LB">>>>>>, <<"take", <<<<"1", "I">>, <<"(list 1 2)", "LB">>>>>>, <<"list-head", <<<<"(list 1 2)", "L">>, <<"1", "I">>>>>>,
  <<"list-tail", <<<<"(list 1 2)", "L">>, <<"1", "I">>>>>>, <<"list-ref", <<<<"(list 1 2)", "L">>, <<"1", "I">>>>>>, <<"nth", <<<<"(list 1 2)", "L">>, <<"1", "I">>>>>>, <<"sublist", <<<<"(list 1 2)", "L">>, <<"1", "I">>, <<"2", "I">>>>>>,
  <<"environment-assign!", <<<<"EN", "EN">>, <<"'x", "Y">>, <<"1", "A">>>>>>, <<"environment-assignable?", <<<<"EN", "EN">>, <<"'x", "Y">>>>>>, <<"environment-assigned?", <<<<"EN", "EN">>, <<"'x", "Y">>>>>>, <<"environment-bindings", <<<<"EN", "EN">>>>>>,
  <<"environment-bound-names", <<<<"EN", "EN">>>>>>, <<"environment-bound?", <<<<"EN", "EN">>, <<"'x", "Y">>>>>>, <<"environment-definable?", <<<<"EN", "EN">>, <<"'x", "Y">>>>>>, <<"environment-define", <<<<"EN", "EN">>, <<"'x", "Y">>, <<"1", "A">>>>>>,
  <<"environment-has-parent?", <<<<"EN", "EN">>>>>>, <<"environment-lookup", <<<<"EN", "EN">>, <<"'x", "Y">>>>>>, <<"environment-lookup-macro", <<<<"EN", "EN">>, <<"'x", "Y">>>>>>, <<"environment-macro-names", <<<<"EN", "EN">>>>>>,
  <<"environment-parent", <<<<"EN", "EN">>>>>>, <<"environment-reference-type", <<<<"EN", "EN">>, <<"'x", "Y">>>>>>, <<"eval", <<<<"5", "A">>, <<"EN", "EN">>>>>>, <<"procedure-environment", <<<<"(lambda () 1)", "UF">>>>>>,
  <<"even?", <<<<"2", "I">>>>>>, <<"odd?", <<<<"1", "I">>>>>>, <<"positive?", <<<<"1", "N">>>>>>, <<"negative?", <<<<"1", "N">>>>>>,
  <<"zero?", <<<<"1", "N">>>>>>, <<"sign", <<<<"1", "N">>>>>>, <<"succ", <<<<"1", "I">>>>>>, <<"pred", <<<<"1", "I">>>>>>,
  <<"pow", <<<<"2", "N">>, <<"3", "N">>>>>>, <<"nan?", <<<<"1.5", "N">>>>>>, <<"inf?", <<<<"1.5", "N">>>>>>, <<"extract-byte", <<<<"[1 2]", "BY">>, <<"0", "I">>>>>>,
  <<"extract-bytes", <<<<"[1 2]", "BY">>, <<"0", "I">>, <<"1", "I">>>>>>, <<"replace-byte", <<<<"[1 2]", "BY">>, <<"0", "I">>, <<"1", "I">>>>>>, <<"replace-byte!", <<<<"[1 2]", "BY">>, <<"0", "I">>, <<"1", "I">>>>>>, <<"list->bytearray", <<<<"(list 1)", "L">>>>>>,
  <<"list-to-bytearray", <<<<"(list 1)", "L">>>>>>, <<"filter", <<<<"odd?", "F">>, <<"(list 1)", "L">>>>>>, <<"remove", <<<<"odd?", "F">>, <<"(list 1)", "L">>>>>>, <<"partition", <<<<"odd?", "FI">>, <<"(list 1)", "L">>>>>>,
  <<"find", <<<<"odd?", "F">>, <<"(list 1)", "L">>>>>>, <<"find-tail", <<<<"odd?", "F">>, <<"(list 1)", "L">>>>>>, <<"memp", <<<<"odd?", "F">>, <<"(list 1)", "L">>>>>>, <<"map", <<<<"odd?", "F">>, <<"(list 1)", "L">>>>>>,
  <<"for-each", <<<<"odd?", "F">>, <<"(list 1)", "L">>>>>>, <<"fold-left", <<<<"+", "F">>, <<"0", "A">>, <<"(list 1)", "L">>>>>>, <<"fold-right", <<<<"+", "F">>, <<"0", "A">>, <<"(list 1)", "L">>>>>>, <<"reduce", <<<<"+", "F">>, <<"0", "A">>, <<"(list 1)", "L">>>>>>,
  <<"reduce-left", <<<<"+", "F">>, <<"0", "A">>, <<"(list 1)", "L">>>>>>, <<"reduce-right", <<<<"+", "F">>, <<"0", "A">>, <<"(list 1)", "L">>>>>>, <<"sort", <<<<"(list 1)", "L">>, <<"<", "F">>>>>>, <<"max", <<<<"(list 1)", "L">>>>>>,
  <<"min", <<<<"(list 1)", "L">>>>>>, <<"fork", <<<<"(lambda (p) 1)", "UF">>>>>>, <<"schedule", <<<<"1", "I">>, <<"(lambda (p) 1)", "UF">>>>>>, <<"join", <<<<"PR", "PR">>>>>>,
  <<"proc-sleep", <<<<"PR", "PR">>, <<"0", "I">>>>>>, <<"wake", <<<<"PR", "PR">>>>>>, <<"abandon", <<<<"PR", "PR">>>>>>, <<"reset-timeout", <<<<"PR", "PR">>>>>>,
  <<"sleep", <<<<"0", "I">>>>>>, <<"format", <<<<"#f", "CB">>, <<"\"a\"", "S">>>>>>, <<"gensym", <<<<"\"a\"", "YS">>>>>>, <<"gensym-naked", <<<<"\"a\"", "YS">>>>>>,
  <<"intern", <<<<"\"a\"", "S">>>>>>, <<"interval", <<<<"1", "I">>, <<"2", "I">>, <<"1", "I">>>>>>, <<"json->lisp", <<<<"\"1\"", "S">>>>>>, <<"load", <<<<"(vfn 4)", "S">>>>>>,
  <<"make-list", <<<<"2", "I">>, <<"1", "A">>>>>>, <<"make-top-level-environment", <<<<"'(a)", "L">>, <<"'(1)", "L">>>>>>, <<"number->string", <<<<"1", "N">>>>>>, <<"string->number", <<<<"\"1\"", "S">>>>>>,
  <<"parse", <<<<"\"1\"", "S">>>>>>, <<"list-directory", <<<<"\".\"", "S">>, <<"\"*\"", "S">>>>>>, <<"open-input-file", <<<<"(vfn 1)", "S">>>>>>, <<"open-output-file", <<<<"(vfn 2)", "S">>>>>>,
  <<"pairlis", <<<<"'(a)", "L">>, <<"'(1)", "L">>>>>>, <<"newline", <<<<"PO", "PT">>>>>>, <<"read", <<<<"PI", "PT">>>>>>, <<"write", <<<<"1", "A">>, <<"PO", "PT">>>>>>,
  <<"write-string", <<<<"\"a\"", "S">>, <<"PO", "PT">>>>>>, <<"write-bytes", <<<<"[1]", "BY">>, <<"PO", "PT">>>>>>, <<"close-port", <<<<"PQ", "PT">>>>>>, <<"string-capitalize", <<<<"\"a\"", "S">>>>>>,
  <<"string-capitalize!", <<<<"(str \"a\")", "S">>>>>>, <<"string-downcase", <<<<"\"a\"", "S">>>>>>, <<"string-downcase!", <<<<"(str \"a\")", "S">>>>>>, <<"string-upcase", <<<<"\"a\"", "S">>>>>>,
  <<"string-upcase!", <<<<"(str \"a\")", "S">>>>>>, <<"string-ci<?", <<<<"\"a\"", "S">>, <<"\"b\"", "S">>>>>>, <<"string-ci<=?", <<<<"\"a\"", "S">>, <<"\"b\"", "S">>>>>>, <<"string-ci=?", <<<<"\"a\"", "S">>, <<"\"b\"", "S">>>>>>,
  <<"string-ci>=?", <<<<"\"a\"", "S">>, <<"\"b\"", "S">>>>>>, <<"string-ci>?", <<<<"\"a\"", "S">>, <<"\"b\"", "S">>>>>>, <<"string<?", <<<<"\"a\"", "S">>, <<"\"b\"", "S">>>>>>, <<"string<=?", <<<<"\"a\"", "S">>, <<"\"b\"", "S">>>>>>,
  <<"string=?", <<<<"\"a\"", "S">>, <<"\"b\"", "S">>>>>>, <<"string>=?", <<<<"\"a\"", "S">>, <<"\"b\"", "S">>>>>>, <<"string>?", <<<<"\"a\"", "S">>, <<"\"b\"", "S">>>>>>, <<"string-join", <<<<"(list \"a\")", "L">>, <<"\",\"", "SN">>>>>>,
  <<"string-length", <<<<"\"a\"", "S">>>>>>, <<"string-null?", <<<<"\"a\"", "S">>>>>>, <<"string-prefix?", <<<<"\"a\"", "S">>, <<"\"b\"", "S">>>>>>, <<"string-suffix?", <<<<"\"a\"", "S">>, <<"\"b\"", "S">>>>>>,
  <<"substring?", <<<<"\"a\"", "S">>, <<"\"b\"", "S">>>>>>, <<"substring", <<<<"\"abc\"", "S">>, <<"0", "I">>, <<"1", "I">>>>>>, <<"string-split", <<<<"\"a\"", "S">>, <<"\",\"", "S">>>>>>, <<"string-trim", <<<<"\"a\"", "S">>, <<"\"b\"", "S">>>>>>,
  <<"string-trim-left", <<<<"\"a\"", "S">>, <<"\"b\"", "S">>>>>>, <<"string-trim-right", <<<<"\"a\"", "S">>, <<"\"b\"", "S">>>>>>, <<"remove-slot!", <<<<"{a: 1}", "FN">>, <<"a:", "SL">>>>>>, <<"general-car-cdr", <<<<"(list 1 2)", "A">>, <<"3", "N">>>>>> >>
Types == {"int", "float", "str", "sym", "naked", "bool", "list", "nil", "fn", "prim", "frame", "bytes", "chan", "atom", "env", "dot", "alist", "port", "proc"}
\* what may be right where class c is needed (the rest is wrong)
May(c) == CASE c = "N" -> {"int", "float"} [] c = "I" -> {"int"} [] c = "FL" -> {"float"} [] c = "S" -> {"str"} [] c = "SN" -> {"str", "nil"} [] c = "Y" -> {"sym", "naked"} [] c = "YS" -> {"str", "sym", "naked"} [] c = "SL" -> {"naked"}
            [] c = "F" -> {"fn", "prim"} [] c = "UF" -> {"fn"} [] c = "FI" -> {"int", "fn", "prim"} [] c = "FR" -> {"frame"} [] c = "FN" -> {"nil", "frame"} [] c = "BY" -> {"bytes"} [] c = "BI" -> {"bytes", "int", "list", "dot", "alist"}
            [] c = "CH" -> {"chan"} [] c = "AT" -> {"atom"} [] c = "EN" -> {"env"} [] c = "PT" -> {"port"} [] c = "PR" -> {"proc"} [] c = "CB" -> {"bool", "port"} [] c = "L" -> {"list", "nil", "dot", "alist"} [] c = "LB" -> {"list", "nil", "dot", "alist", "bytes"} [] OTHER -> Types
Values(t) == CASE t = "int" -> {"5", "0", "-1"} [] t = "float" -> {"1.5", "2.0", "0.0"} [] t = "str" -> {"\"s\"", "\"\"", "\"1\""} [] t = "sym" -> {"'zz", "'car"} [] t = "naked" -> {"zz:"} [] t = "bool" -> {"#t", "#f"} [] t = "list" -> {"(list 1 2)", "'(a)", "vl"} [] t = "nil" -> {"'()", "nil"}
              [] t = "fn" -> {"(lambda (q) q)", "vf"} [] t = "prim" -> {"car", "+", "if"} [] t = "frame" -> {"{z: 1}", "vfr"} [] t = "bytes" -> {"[1 2]", "vb", "[]"} [] t = "chan" -> {"(make-channel 3)", "vch"} [] t = "atom" -> {"(atomic 3)", "vat"}
              [] t = "env" -> {"venv", "(system-global-environment)"} [] t = "dot" -> {"(cons 1 2)"} [] t = "alist" -> {"(acons 1 2 '())"} [] t = "port" -> {"vin"} [] OTHER -> {"vpr"}
First(t) == CHOOSE x \in Values(t) : TRUE
\* right arguments of the program's own, which must not change when the call fails
Own(s, c) == CASE c = "BY" -> "vb" [] c = "FR" -> "vfr" [] c = "AT" -> "vat" [] c = "CH" -> "vch" [] c = "EN" -> "venv" [] c = "PT" -> (IF s = "PI" THEN "vin" ELSE "vout") [] c = "PR" -> "vpr" [] OTHER -> s
Fresh(s, c) == CASE c = "AT" -> "(atomic 1)" [] c = "CH" -> "(let ((c (make-channel 2))) (channel-write c 1) c)" [] c = "EN" -> "(make-top-level-environment '(x) '(1))" [] c = "PR" -> "(fork (lambda (p) 1))"
                [] c = "PT" -> (IF s = "PI" THEN "(open-input-file (vfn 1))" ELSE "(open-output-file (vfn 2))") [] OTHER -> s
Name(r) == r[1]
Args(r) == r[2]
Good(r) == << <<Call(Name(r), [i \in 1..Len(Args(r)) |-> Fresh(Args(r)[i][1], Args(r)[i][2])]), IF \E i \in 1..Len(Args(r)) : Args(r)[i][2] = "PR" THEN "*" ELSE "?V">> >>
Probed(as) == [i \in 1..Len(as) |-> "(begin (vprobe " \o Str(i) \o ") " \o as[i] \o ")"]
State == <<"(list vb vl vfr (atomic-load vat) (environment-bound-names venv) (environment-lookup venv 'x) (has-slot? vfr zz:))", "([1 2 3] (1 2 3) {a: 1} 5 (x) 1 #f)">>
\* w: position |-> wrong argument
Wrong(r, w) == LET as == [i \in 1..Len(Args(r)) |-> IF i \in DOMAIN w THEN w[i] ELSE Own(Args(r)[i][1], Args(r)[i][2])] IN
  << <<Call(Name(r), Probed(as)), "!E">>, <<"(vlog)", Paren([i \in 1..Len(as) |-> Str(i)])>> >>
\* through apply
WrongApplied(r, w) == LET as == [i \in 1..Len(Args(r)) |-> IF i \in DOMAIN w THEN w[i] ELSE Own(Args(r)[i][1], Args(r)[i][2])] IN << <<"(apply " \o Name(r) \o " (list " \o JoinWith(as, " ") \o "))", "!E">> >>
Prepare == << <<"(begin (vclear) (vput (vfn 1) \"(a b) c\") (vput (vfn 4) \"1\") (define vb [1 2 3]) (define vl '(1 2 3)) (define vfr {a: 1}) (define vat (atomic 5)) (define vch (make-channel 5)) (channel-write vch 1) (channel-write vch 2) (define venv (make-top-level-environment '(x) '(1))) (define (vf q) q) 1)", "1">>,
              <<"(begin (define vpr (fork (lambda (p) 1))) (join vpr) (define vin (open-input-file (vfn 1))) (define vout (open-output-file (vfn 3))) 1)", "1">> >>
\* afterwards everything is where it was
Finish == << State, <<"(list (channel-try-read vch) (channel-try-read vch) (channel-try-read vch))", "((#t 1 #t) (#t 2 #t) (#f () #t))">>, <<"(list (read vin) (read vin) (eof-object? (read vin)))", "((a b) c #t)">>,
             <<"(begin (write-string \"end\" vout) (close-port vout) (close-port vin) (let ((p (open-input-file (vfn 3)))) (let ((x (list (read p) (eof-object? (read p))))) (close-port p) x)))", "(end #t)">>, <<"(vclear)", "()">> >>
Init == row = 0 /\ chan = <<1, 2>> /\ steps = IF RANDOM THEN Prepare ELSE <<>>
Needs(r) == {i \in 1..Len(Args(r)) : May(Args(r)[i][2]) # Types}
Every == ~RANDOM /\ row = 0 /\ \E k \in 1..Len(Rows) : row' = k /\ UNCHANGED chan /\ \E i \in Needs(Rows[k]) : \E t \in Types \ May(Args(Rows[k])[i][2]) : \E v \in Values(t) :
   steps' = Prepare \o Wrong(Rows[k], (i :> v)) \o WrongApplied(Rows[k], (i :> v)) \o Finish
Valid == ~RANDOM /\ row = 0 /\ \E k \in 1..Len(Rows) : row' = k /\ UNCHANGED chan /\ steps' = Prepare \o Good(Rows[k]) \o Finish
WrongFor(c) == LET t == RE(Types \ May(c)) IN RE(Values(t))
RECURSIVE RWrong(_, _)
RWrong(r, S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE i \in S : TRUE v == WrongFor(Args(r)[i][2]) IN (i :> v) @@ RWrong(r, S \ {i})
Random == RANDOM /\ UNCHANGED chan /\ \E k \in {RE(1..Len(Rows))}, j \in {RE(1..6)} : row' = k /\ LET r == Rows[k] IN
  IF j = 1 \/ Needs(r) = {} THEN steps' = steps \o Good(r)
  ELSE IF j = 2 THEN steps' = Append(steps, State)
  ELSE \E i \in {RE(Needs(r))}, S \in {RE(SUBSET Needs(r))} : \E w \in {RWrong(r, S \cup {i})} : steps' = steps \o (IF j = 3 THEN WrongApplied(r, w) ELSE Wrong(r, w))
Next == Every \/ Valid \/ Random
Spec == Init /\ [][Next]_vars
View == row
Bounded == TRUE
BoundedNext == TRUE
\* the table: what is given as right is right
Consistent == \A k \in 1..Len(Rows) : \A i \in 1..Len(Args(Rows[k])) : May(Args(Rows[k])[i][2]) # {}
EmitEdge == EmitSteps("e", steps')
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN EmitSteps("p", steps' \o Finish) ELSE TRUE
=============================================================================
