------------------------------- MODULE Floats -------------------------------
(* The functions of real numbers: exact at the points where the result is       *)
(* known, within a relative error elsewhere, by the identities that define       *)
(* them. x is what they are asked for, in eighths.                               *)
EXTENDS Emit, Integers, FiniteSets
CONSTANTS DEPTH, RANDOM
VARIABLES x, steps
vars == <<x, steps>>
RE(S) == RandomElement(S)
Abs(n) == IF n < 0 THEN -n ELSE n
Frac == <<"0", "125", "25", "375", "5", "625", "75", "875">>
FT(n) == (IF n < 0 THEN "-" ELSE "") \o Str(Abs(n) \div 8) \o "." \o Frac[1 + (Abs(n) % 8)]
Unary == <<"acos", "acosh", "asin", "asinh", "atan", "atanh", "cbrt", "cos", "cosh", "erf", "erfc", "exp", "exp2", "expm1", "gamma", "j0", "j1", "log", "log10", "log1p", "log2", "logb", "sin", "sinh", "sqrt", "tan", "tanh", "y0", "y1">>
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Log2(_)
Log2(n) == IF n = 1 THEN 0 ELSE 1 + Log2(n \div 2)
\* ---- exact: <<function, argument (an integer), result (an integer)>>
Exact == {<<f, 0, 0>> : f \in {"sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh", "expm1", "log1p", "erf", "j1", "sqrt", "cbrt"}} \cup {<<f, 0, 1>> : f \in {"cos", "cosh", "exp", "erfc", "j0", "exp2"}}
         \cup {<<f, 1, 0>> : f \in {"acos", "acosh", "log", "log2", "log10", "logb"}} \cup {<<"exp2", n, Pow(2, n)>> : n \in 1..16} \cup {<<"log2", Pow(2, n), n>> : n \in 1..20} \cup {<<"log10", Pow(10, n), n>> : n \in 1..5}
         \cup {<<"sqrt", n * n, n>> : n \in 1..40} \cup {<<"cbrt", n * n * n, n>> : n \in 1..40} \cup {<<"cbrt", 0 - n * n * n, 0 - n>> : n \in 1..10} \cup {<<"gamma", n, Fact(n - 1)>> : n \in 1..8} \cup {<<"logb", n, Log2(n)>> : n \in 2..70}
Points == << <<"sin", "1", "0.8414710">>, <<"cos", "1", "0.5403023">>, <<"tan", "1", "1.5574077">>, <<"asin", "0.5", "0.5235988">>, <<"acos", "0.5", "1.0471976">>, <<"atan", "1", "0.7853982">>, <<"atan", "-3", "-1.2490458">>, <<"sinh", "1", "1.1752012">>, <<"cosh", "1", "1.5430806">>, <<"tanh", "1", "0.7615942">>,
             <<"asinh", "2", "1.4436355">>, <<"acosh", "2", "1.3169579">>, <<"atanh", "0.5", "0.5493061">>, <<"exp", "1", "2.7182818">>, <<"exp", "-2", "0.1353353">>, <<"exp2", "0.5", "1.4142136">>, <<"exp2", "-1", "0.5">>, <<"expm1", "1", "1.7182818">>, <<"log", "2", "0.6931472">>, <<"log", "10", "2.3025851">>,
             <<"log10", "2", "0.3010300">>, <<"log1p", "1", "0.6931472">>, <<"log2", "10", "3.3219281">>, <<"sqrt", "2", "1.4142136">>, <<"cbrt", "2", "1.2599210">>, <<"erf", "1", "0.8427008">>, <<"erfc", "1", "0.1572992">>, <<"erf", "0.5", "0.5204999">>, <<"gamma", "0.5", "1.7724539">>, <<"gamma", "2.5", "1.3293404">>,
             <<"j0", "1", "0.7651977">>, <<"j1", "1", "0.4400506">>, <<"y0", "1", "0.0882570">>, <<"y1", "1", "-0.7812128">>, <<"j0", "5", "-0.1775968">>, <<"j1", "5", "-0.3275791">>, <<"y0", "5", "-0.3085176">>, <<"y1", "5", "0.1478631">> >>
Outside == << <<"(nan? (asin 2))", "#t">>, <<"(nan? (acos -2))", "#t">>, <<"(nan? (acosh 0))", "#t">>, <<"(nan? (atanh 2))", "#t">>, <<"(nan? (log -1))", "#t">>, <<"(nan? (log2 -1))", "#t">>, <<"(nan? (log10 -1))", "#t">>, <<"(nan? (log1p -2))", "#t">>, <<"(nan? (sqrt -1))", "#t">>, <<"(== (log 0) -inf)", "#t">>, <<"(== (atanh 1) +inf)", "#t">>,
              <<"(== (exp +inf) +inf)", "#t">>, <<"(== (exp -inf) 0.0)", "#t">>, <<"(nan? (sin nan))", "#t">>, <<"(nan? (sin +inf))", "#t">>, <<"(== (exp 1000) +inf)", "#t">>, <<"(== (sqrt +inf) +inf)", "#t">>, <<"(inf? (gamma 100))", "#t">>, <<"(== (y0 0) -inf)", "#t">>, <<"(== (erf +inf) 1.0)", "#t">>, <<"(vnear (atan +inf) (/ pi 2))", "#t">> >>
Constant == << <<"(vnear (sin pi) 0)", "#t">>, <<"(vnear pi 3.1415927)", "#t">>, <<"(vnear e (exp 1))", "#t">>, <<"(vnear (* sqrt2 sqrt2) 2)", "#t">>, <<"(vnear (* phi phi) (+ phi 1))", "#t">>, <<"(vnear (* sqrte sqrte) e)", "#t">>, <<"(vnear (* sqrtpi sqrtpi) pi)", "#t">>, <<"(vnear (* sqrtphi sqrtphi) phi)", "#t">>, <<"(vnear ln2 (log 2))", "#t">>,
               <<"(vnear (* log2e ln2) 1)", "#t">>, <<"(vnear ln10 (log 10))", "#t">>, <<"(vnear (* log10e ln10) 1)", "#t">>, <<"(list (nan? nan) (inf? +inf) (inf? -inf) (nan? +inf) (inf? nan) (inf? pi) (nan? pi))", "(#t #t #t #f #f #f #f)">>, <<"(list (< -inf 0) (< 0 +inf) (> +inf 100000) (== +inf +inf) (== +inf -inf))", "(#t #t #t #t #f)">>,
               <<"(list (float? pi) (float? e) (float? phi) (float? ln2) (float? nan) (float? +inf) (number? nan) (integer? +inf))", "(#t #t #t #t #t #t #t #f)">>, <<"(== (+ +inf 1) +inf)", "#t">>, <<"(nan? (- +inf +inf))", "#t">>, <<"(nan? (+ nan 1))", "#t">> >>
Fixed == {"pi", "e", "phi", "sqrt2", "sqrte", "sqrtpi", "sqrtphi", "ln2", "log2e", "ln10", "log10e"}
\* ---- identities of x (and y), where they hold
Every == <<"(vnear (+ (* (sin x) (sin x)) (* (cos x) (cos x))) 1)", "(vnear (* (tan x) (cos x)) (sin x))", "(vnear (tan (atan x)) x)", "(vnear (+ (sin x) (sin (- 0 x))) 0)", "(vnear (cos x) (cos (- 0 x)))", "(vnear (sin (+ x (/ pi 2))) (cos x))", "(vnear (cos (* 2 x)) (- 1 (* 2 (* (sin x) (sin x)))))",
         "(vnear (asinh (sinh x)) x)", "(vnear (- (* (cosh x) (cosh x)) (* (sinh x) (sinh x))) 1)", "(vnear (* (tanh x) (cosh x)) (sinh x))", "(vnear (sinh x) (/ (- (exp x) (exp (- 0 x))) 2))", "(vnear (cosh x) (/ (+ (exp x) (exp (- 0 x))) 2))", "(vnear (acosh (cosh x)) (abs x))", "(vnear (log (exp x)) x)",
         "(vnear (exp2 x) (exp (* x ln2)))", "(vnear (expm1 x) (- (exp x) 1))", "(vnear (+ (erf x) (erfc x)) 1)", "(vnear (erf (- 0 x)) (- 0 (erf x)))", "(vnear (* (cbrt x) (* (cbrt x) (cbrt x))) x)", "(vnear (sqrt (* x x)) (abs x))", "(vnear (j0 x) (j0 (- 0 x)))", "(vnear (j1 x) (- 0 (j1 (- 0 x))))",
         "(vnear (/ (- (j0 (+ x 0.03125)) (j0 (- x 0.03125))) 0.0625) (- 0 (j1 x)))", "(vnear (log2 (exp2 x)) x)", "(vnear (sin x) (car (map sin (list x))))", "(vnear (exp x) (apply exp (list x)))">>
Many == Len(Every)
Positive == <<"(vnear (exp (log x)) x)", "(vnear (log10 x) (/ (log x) ln10))", "(vnear (log2 x) (/ (log x) ln2))", "(vnear (log1p x) (log (+ 1 x)))", "(vnear (* (sqrt x) (sqrt x)) x)", "(vnear (log (* x x)) (* 2 (log x)))", "(vnear (gamma (+ x 1)) (* x (gamma x)))", "(vnear (- (* (j1 x) (y0 x)) (* (j0 x) (y1 x))) (/ 2 (* pi x)))",
              "(vnear (cosh (acosh (+ x 1))) (+ x 1))", "(vnear (+ (atan x) (atan (/ 1.0 x))) (/ pi 2))", "(vnear (log (/ 1.0 x)) (- 0 (log x)))", "(and (<= (exp2 (logb x)) x) (< x (* 2 (exp2 (logb x)))))", "(vnear (pow x 0.5) (sqrt x))", "(vnear (pow x -1.0) (/ 1.0 x))">>
Unit == <<"(vnear (sin (asin x)) x)", "(vnear (cos (acos x)) x)", "(vnear (+ (asin x) (acos x)) (/ pi 2))", "(vnear (tanh (atanh x)) x)", "(vnear (asin (sin x)) x)", "(vnear (atanh x) (/ (log (/ (+ 1 x) (- 1 x))) 2))", "(vnear (asinh x) (log (+ x (sqrt (+ 1 (* x x))))))">>
Two == <<"(vnear (sin (+ x y)) (+ (* (sin x) (cos y)) (* (cos x) (sin y))))", "(vnear (cos (- x y)) (+ (* (cos x) (cos y)) (* (sin x) (sin y))))", "(vnear (exp (+ x y)) (* (exp x) (exp y)))", "(vnear (expm1 (- x y)) (- (/ (exp x) (exp y)) 1))", "(vnear (tanh (+ x y)) (/ (+ (tanh x) (tanh y)) (+ 1 (* (tanh x) (tanh y)))))",
         "(eq? (< x y) (< (exp x) (exp y)))", "(eq? (< x y) (< (atan x) (atan y)))", "(eq? (< x y) (< (sinh x) (sinh y)))", "(eq? (< x y) (< (cbrt x) (cbrt y)))">>
\* where tangents are steep, or sums cancel, single precision says little
Steep(n) == \E k \in -13..13 : Abs(n * 1000 - (k * 12566 + 6283)) * 2 < 3000 \* within 3/16 or so of an odd multiple of pi/2 (in eighths: 12.566)
Q(src, e) == << <<src, e>> >>
At(n, form) == Q("(let ((x " \o FT(n) \o ")) " \o form \o ")", "#t")
Fit(i, n) == IF i \in {9, 10, 11, 12} THEN Abs(n) <= 24 ELSE IF i \in {8, 13} THEN Abs(n) <= 40 ELSE IF i = 2 THEN ~Steep(n) ELSE TRUE
IntText(n) == IF n < 0 THEN "-" \o Str(0 - n) ELSE Str(n)
AskExact(t) == Q("(list (== (" \o t[1] \o " " \o IntText(t[2]) \o ") " \o IntText(t[3]) \o ".0) (== (" \o t[1] \o " " \o IntText(t[2]) \o ".0) " \o IntText(t[3]) \o ".0) (float? (" \o t[1] \o " " \o IntText(t[2]) \o ")))", "(#t #t #t)")
AskPoint(p) == Q("(vnear (" \o p[1] \o " " \o p[2] \o ") " \o p[3] \o ")", "#t")
AskBad(f, a) == Q("(" \o f \o " " \o a \o ")", "!E")
AskFixed(c) == Q("(let ((old " \o c \o ")) (list (on-error (begin (set! " \o c \o " 3) #f) (lambda (e) #t)) (== old " \o c \o ")))", "(#t #t)")
\* ---- near 0 the functions are their first term: the smaller the argument, the closer (a: argument, as text)
Small == {"log1p", "expm1", "sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh"}
Scaled == << <<"erf", "1.1283792">>, <<"j1", "0.5">> >>
SmallArgs == {"0.001", "-0.001", "0.0001", "-0.00002", "0.000001", "-0.00000001", "0.0000000001"}
AskSmall(f, a, c) == Q("(let ((q (/ (/ (" \o f \o " " \o a \o ") " \o a \o ") " \o c \o "))) (and (< 0.999 q) (< q 1.001)))", "#t")
\* ---- large integers are the number they are: 2^k
AskPower(k) == Q("(let ((n (left-shift 1 " \o Str(k) \o "))) (list (== (log2 n) " \o Str(k) \o ".0) (== (logb n) " \o Str(k) \o ".0) (== (log2 (- 0 (- 0 n))) " \o Str(k) \o ".0) (== (sqrt n) (exp2 " \o FT(4 * k) \o ")) (integer? n)"
                       \o (IF k % 3 = 0 THEN " (== (cbrt n) (exp2 " \o Str(k \div 3) \o "))" ELSE " #t") \o " (== (+ n 0.0) (exp2 " \o Str(k) \o ")) (vsmall (- (/ (log n) (* " \o Str(k) \o " ln2)) 1)) (vsmall (- (/ (log10 n) (* " \o Str(k) \o " (log10 2))) 1)) (== (* 1.0 n) (exp2 " \o Str(k) \o ")) (== (/ n 1.0) (exp2 " \o Str(k) \o "))))",
                       "(#t #t #t #t #t #t #t #t #t #t #t)")
\* an integer is taken as the number it is
AskSameAsFloat(f, k) == Q("(let* ((n (left-shift 1 " \o Str(k) \o ")) (a (" \o f \o " n)) (b (" \o f \o " (exp2 " \o Str(k) \o "))) (c (" \o f \o " (- 0 n))) (d (" \o f \o " (- 0 (exp2 " \o Str(k) \o "))))) (list (or (== a b) (and (nan? a) (nan? b))) (or (== c d) (and (nan? c) (nan? d)))))", "(#t #t)")
Prelude == Q("(begin (define (vsmall d) (and (< d 0.00001) (< -0.00001 d))) (define (vnear a b) (let ((d (abs (- a b)))) (< d (* 0.002 (max (list 1.0 (abs a) (abs b))))))) 1)", "1")
Init == x = 0 /\ steps = Prelude
Go(n, s) == x' = n /\ steps' = steps \o s
Once == ~RANDOM /\ Len(steps) = 1
AllExact == Once /\ \E t \in Exact : Go(t[2] * 8, AskExact(t))
AllPoints == Once /\ \/ \E i \in 1..Len(Points) : Go(i, AskPoint(Points[i]))
                     \/ \E i \in 1..Len(Outside) : Go(i, << Outside[i] >>)
                     \/ \E i \in 1..Len(Constant) : Go(i, << Constant[i] >>)
                     \/ \E c \in Fixed : Go(0, AskFixed(c))
AllSmall == Once /\ \E a \in SmallArgs : \/ \E f \in Small : Go(0, AskSmall(f, a, "1.0"))
                                     \/ \E i \in 1..Len(Scaled) : Go(0, AskSmall(Scaled[i][1], a, Scaled[i][2]))
AllLarge == Once /\ \E k \in 1..62 : Go(k, AskPower(k)) \/ \E f \in 1..Len(Unary) : Go(k, AskSameAsFloat(Unary[f], k))
AllBad == Once /\ \E f \in 1..Len(Unary) : \/ \E a \in {"\"1\"", "'a", "'()", "'(1)", "#t", "{a: 1}", "[1]", "car", ""} : Go(0, AskBad(Unary[f], a))
                                           \/ Go(0, AskBad(Unary[f], "1 2"))
AllIdent == Once /\ \/ \E n \in -40..40 : \E i \in 1..Many : Fit(i, n) /\ Go(n, At(n, Every[i]))
                    \/ \E n \in 1..40 : \E i \in 1..Len(Positive) : Go(n, At(n, Positive[i]))
                    \/ \E n \in -7..7 : \E i \in 1..Len(Unit) : Go(n, At(n, Unit[i]))
                    \/ \E n \in {-17, -8, -3, 0, 2, 9, 16}, m \in {-13, -5, 0, 1, 7, 12} : \E i \in 1..Len(Two) : Go(n, At(n, "(let ((y " \o FT(m) \o ")) " \o Two[i] \o ")"))
RandomAsk == RANDOM /\ \E k \in {RE(1..6)}, n \in {RE(-90..90)}, m \in {RE(-30..30)}, j \in {RE(1..100)} :
   CASE k <= 2 -> LET i == 1 + (j % Many) IN IF Fit(i, n) THEN Go(n, At(n, Every[i])) ELSE Go(n, At(n, Every[1]))
     [] k = 3 -> Go(n, At(Abs(n) + 1, Positive[1 + (j % Len(Positive))]))
     [] k = 4 -> Go(n, At(n % 8, Unit[1 + (j % Len(Unit))]))
     [] k = 5 -> Go(m, At(m, "(let ((y " \o FT(n % 31) \o ")) " \o Two[1 + (j % Len(Two))] \o ")"))
     [] k = 6 -> Go(n, AskExact(RE(Exact)))
Next == AllSmall \/ AllLarge \/ AllExact \/ AllPoints \/ AllBad \/ AllIdent \/ RandomAsk
Spec == Init /\ [][Next]_vars
View == <<x, Len(steps)>>
Bounded == TRUE
BoundedNext == TRUE
\* the table does not contradict itself: each function has one value at a point
OneValue == x # 0 \/ \A s, t \in Exact : s[1] = t[1] /\ s[2] = t[2] => s[3] = t[3]
EmitEdge == EmitSteps("e", steps')
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
