------------------------------ MODULE HostPrim ------------------------------
(* Primitives that the host supplies.  How many arguments one takes is given as  *)
(* alternatives n, >=n, (lo,hi) or *, joined by |.  A call with another number is *)
(* an error and evaluates nothing; otherwise the primitive is called once, with   *)
(* the values of its arguments, evaluated once each from left to right (a special *)
(* form: with the arguments as they are written), in the scope of the call, and   *)
(* what it yields, a value or an error, is what the call yields.                   *)
EXTENDS Emit, Integers, FiniteSets
CONSTANTS RANDOM, DEPTH
VARIABLES prims,   \* name |-> <<terms, kind>>
          steps
vars == <<prims, steps>>
RE(S) == RandomElement(S)
Names == {"hp-a", "hp-b"}
Kinds == {"fn", "rfn", "form", "rform"}
\* terms: <<"n", k>>, <<"ge", k>>, <<"in", lo, hi>>, <<"any">>
Terms == {<<"n", k>> : k \in {0, 1, 2, 3}} \cup {<<"ge", k>> : k \in {0, 1, 3}} \cup {<<"in", 1, 2>>, <<"in", 0, 3>>, <<"in", 2, 4>>, <<"in", 3, 12>>, <<"n", 11>>, <<"ge", 10>>} \cup {<<"any">>}
TermText(x) == CASE x[1] = "n" -> Str(x[2]) [] x[1] = "ge" -> ">=" \o Str(x[2]) [] x[1] = "in" -> "(" \o Str(x[2]) \o "," \o Str(x[3]) \o ")" [] OTHER -> "*"
SpecText(s) == JoinWith([i \in 1..Len(s) |-> TermText(s[i])], "|")
Fits(x, k) == CASE x[1] = "n" -> k = x[2] [] x[1] = "ge" -> k >= x[2] [] x[1] = "in" -> x[2] <= k /\ k <= x[3] [] OTHER -> TRUE
Accepts(s, k) == \E i \in 1..Len(s) : Fits(s[i], k)
Special(p) == p[2] \in {"form", "rform"}
Restricted(p) == p[2] \in {"rfn", "rform"}
Ns(a, b) == [i \in 1..(b - a + 1) |-> Str(a + i - 1)]
Probes(k) == [i \in 1..k |-> "(vprobe " \o Str(i) \o ")"]
\* ---- one call with k arguments, in a scope in which vq is q; f is how the primitive is named there
Outcome(p, args, vals, q) == IF ~Accepts(p[1], Len(args)) THEN "!E" ELSE Paren((IF Special(p) THEN args ELSE vals) \o <<q>>)
Logged(p, n, k) == IF ~Accepts(p[1], k) THEN <<>> ELSE (IF Special(p) THEN <<>> ELSE Ns(1, k)) \o <<n>>
LogStep(l) == <<"(vlog)", Paren(l)>>
Direct(n, p, k) == << <<Call(n, Probes(k)), Outcome(p, Probes(k), Ns(1, k), "100")>>, LogStep(Logged(p, n, k)) >>
Local(n, p, k) == << <<"(let ((vq 7)) " \o Call(n, Probes(k)) \o ")", Outcome(p, Probes(k), Ns(1, k), "7")>>, LogStep(Logged(p, n, k)) >>
Alias(n, p, k) == << <<"(let ((h " \o n \o ")) " \o Call("h", Probes(k)) \o ")", Outcome(p, Probes(k), Ns(1, k), "100")>>, LogStep(Logged(p, n, k)) >>
InFun(n, p, k) == << <<"((lambda (vq) " \o Call(n, Probes(k)) \o ") 8)", Outcome(p, Probes(k), Ns(1, k), "8")>>, LogStep(Logged(p, n, k)) >>
\* an error in argument j
ErrArg(n, p, k, j) == LET args == [Probes(k) EXCEPT ![j] = "(begin (vprobe " \o Str(j) \o ") (error \"e\"))"] IN
  << <<Call(n, args), IF ~Accepts(p[1], k) THEN "!E" ELSE IF Special(p) THEN Paren(args \o <<"100">>) ELSE "!E">>,
     LogStep(IF ~Accepts(p[1], k) THEN <<>> ELSE IF Special(p) THEN <<n>> ELSE Ns(1, j)) >>
\* an error of the primitive itself
Fails(n, p, k) == LET args == <<IF Special(p) THEN "fail" ELSE "'fail">> \o [i \in 1..(k - 1) |-> "(vprobe " \o Str(i) \o ")"] IN
  << <<Call(n, args), "!E">>, LogStep(IF ~Accepts(p[1], k) THEN <<>> ELSE (IF Special(p) THEN <<>> ELSE Ns(1, k - 1)) \o <<n>>),
     <<"(on-error " \o Call(n, args) \o " (lambda (m) 'caught) (lambda () 'fine))", "caught">>, LogStep(IF ~Accepts(p[1], k) THEN <<>> ELSE (IF Special(p) THEN <<>> ELSE Ns(1, k - 1)) \o <<n>>) >>
\* given values: nothing of them is evaluated again
Vals(k) == [i \in 1..k |-> IF i = 1 THEN "(vprobe 1)" ELSE IF i = 2 THEN "()" ELSE IF i = 3 THEN "vq" ELSE Str(i)]
Applied(n, p, k) == << <<"(apply " \o n \o " '" \o Paren(Vals(k)) \o ")", Outcome(p, Vals(k), Vals(k), "100")>>, LogStep(IF Accepts(p[1], k) THEN <<n>> ELSE <<>>) >>
HostRaw(n, p, k) == << <<"(vapply-raw " \o n \o " '" \o Paren(Vals(k)) \o ")", Outcome(p, Vals(k), Vals(k), "100")>>, LogStep(IF Accepts(p[1], k) THEN <<n>> ELSE <<>>) >>
HostEval(n, p, k) == << <<"(vapply " \o n \o " '" \o Paren(Probes(k)) \o ")", Outcome(p, Probes(k), Ns(1, k), "100")>>, LogStep(Logged(p, n, k)) >>
Mapped(n, p) == << <<"(map " \o n \o " '(1 (vprobe 2) ()))", IF Accepts(p[1], 1) THEN "((1 100) ((vprobe 2) 100) (() 100))" ELSE "!E">>, LogStep(IF Accepts(p[1], 1) THEN <<n, n, n>> ELSE <<>>) >>
\* restricted primitives in a restricted environment, and others there
Confined(n, p, k) ==
  << <<"(let ((ve (make-top-level-environment '(vq) '(9)))) (eval '(restrict-environment) ve) (eval '" \o Call(n, Probes(k)) \o " ve))", IF Restricted(p) THEN "!E" ELSE Outcome(p, Probes(k), Ns(1, k), "9")>>,
     LogStep(IF Restricted(p) THEN <<>> ELSE Logged(p, n, k)) >>
\* protected from the programs
Kept(n, p, k) == << <<"(set! " \o n \o " 5)", "!E">>, <<"(define " \o n \o " 5)", "!E", "g">>, <<"(set! " \o n \o " 5)", "!E", "g">>, <<"(let ((" \o n \o " 5)) " \o n \o ")", "5">> >> \o Direct(n, p, k)
Void(n, p) == << <<"(" \o n \o " '() nil)", IF Accepts(p[1], 2) THEN (IF Special(p) THEN "((quote ()) nil 100)" ELSE "(() () 100)") ELSE "!E">>, LogStep(IF Accepts(p[1], 2) THEN <<n>> ELSE <<>>) >>
Args == 0..5 \cup {9, 10, 11, 12, 13}
Bound == DOMAIN prims
Register(n, s, kd) == prims' = [x \in Bound \cup {n} |-> IF x = n THEN <<s, kd>> ELSE prims[x]]
RegStep(n, s, kd) == << <<"(vmake \"" \o n \o "\" \"" \o SpecText(s) \o "\" \"" \o kd \o "\")", "()">> >>
Prepare == << <<"(begin (define vq 100) 1)", "1">> >>
Init == prims = [x \in {} |-> 0] /\ steps = IF RANDOM THEN Prepare ELSE <<>>
Specs1 == {<<x>> : x \in Terms}
Specs2 == {<<x, y>> : x \in Terms, y \in Terms}
\* ---- exhaustively: every specification of one or two alternatives, every number of arguments
Exhaust == ~RANDOM /\ prims = [x \in {} |-> 0] /\ \E s \in Specs1 \cup Specs2, kd \in {"fn", "form"} : Register("hp-a", s, kd)
           /\ LET p == <<s, kd>> ks == <<0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 13>>
                  C[i \in 0..Len(ks)] == IF i = 0 THEN <<>> ELSE C[i - 1] \o Direct("hp-a", p, ks[i]) \o Applied("hp-a", p, ks[i])
              IN steps' = Prepare \o RegStep("hp-a", s, kd) \o C[Len(ks)]
Calls(n, p, k, j) == CASE j = 1 -> Direct(n, p, k) [] j = 2 -> Local(n, p, k) [] j = 3 -> Alias(n, p, k) [] j = 4 -> InFun(n, p, k) [] j = 5 -> (IF k = 0 THEN <<>> ELSE ErrArg(n, p, k, k))
                       [] j = 6 -> (IF k = 0 THEN <<>> ELSE ErrArg(n, p, k, 1)) [] j = 7 -> (IF k = 0 THEN <<>> ELSE Fails(n, p, k)) [] j = 8 -> Applied(n, p, k) [] j = 9 -> HostRaw(n, p, k) [] j = 10 -> HostEval(n, p, k)
                       [] j = 11 -> Mapped(n, p) [] j = 12 -> Confined(n, p, k) [] j = 13 -> Kept(n, p, k) [] OTHER -> Void(n, p)
Every == ~RANDOM /\ prims = [x \in {} |-> 0] /\ \E s \in Specs1, kd \in Kinds, j \in 1..14, k \in {0, 1, 2, 3, 5} :
           Calls("hp-b", <<s, kd>>, k, j) # <<>> /\ Register("hp-b", s, kd) /\ steps' = Prepare \o RegStep("hp-b", s, kd) \o Calls("hp-b", <<s, kd>>, k, j)
RSpec(any) == LET n == RE(1..3) IN <<RE(Terms)>> \o (IF n > 1 THEN <<RE(Terms)>> ELSE <<>>) \o (IF n > 2 THEN <<RE(Terms)>> ELSE <<>>)
RandomNext == RANDOM /\
   IF Bound = {} \/ RE(1..8) = 1 THEN \E n \in {RE(Names)}, s \in {RSpec(0)}, kd \in {RE(Kinds)} : Register(n, s, kd) /\ steps' = steps \o RegStep(n, s, kd)
   ELSE \E n \in {RE(Bound)}, k \in {RE(Args)}, j \in {RE(1..14)} : UNCHANGED prims /\ steps' = steps \o Calls(n, prims[n], k, j) \o << <<"(+ 1 1)", "2">> >>
Next == Exhaust \/ Every \/ RandomNext
Spec == Init /\ [][Next]_vars
View == prims
Bounded == TRUE
BoundedNext == TRUE
\* a specification accepts what one of its alternatives does
Joined == \A n \in Bound : \A k \in Args : Accepts(prims[n][1], k) = (\E i \in 1..Len(prims[n][1]) : Accepts(<<prims[n][1][i]>>, k))
EmitEdge == EmitSteps("e", steps')
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
