------------------------------- MODULE Arith --------------------------------
(* Arithmetic and comparison: integers modulo 2^64 and exact binary fractions.  *)
(* A number is <<"i", bytes>> or <<"f", n>>, the float n/8.                      *)
EXTENDS Int64, Emit
CONSTANTS DEPTH, RANDOM, FULL
VARIABLES x, y, z, steps
vars == <<x, y, z, steps>>
RE(S) == RandomElement(S)
I(n) == <<"i", Of(n)>>
Big(b) == <<"i", b>>
F(n) == <<"f", n>>
IsI(v) == v[1] = "i"
\* ---- text
Eighths == <<"0", "125", "25", "375", "5", "625", "75", "875">>
FT(n) == LET m == IF n < 0 THEN -n ELSE n IN (IF n < 0 THEN "-" ELSE "") \o Str(m \div 8) \o "." \o Eighths[(m % 8) + 1]
Lit(v) == IF IsI(v) THEN Dec(v[2]) ELSE FT(v[2])
\* ---- integers that matter
Edge == {Of(0), Of(1), Of(-1), Of(2), Of(-2), Of(3), Of(-7), Of(10), Of(255), Of(256), Of(65536), Of(16777216), Of(16777217), Of(-16777217), Of(2147483647), Of(-2147483647),
         Shl(One, 31), Shl(One, 32), Add(Shl(One, 32), Of(-1)), Shl(One, 53), Add(Shl(One, 53), One), Neg(Add(Shl(One, 53), One)), Max64, Min64, Add(Max64, Of(-1)), Add(Min64, One), Shl(One, 62)}
FewEdge == {Of(0), Of(1), Of(-1), Of(3), Of(16777216), Of(16777217), Max64, Min64}
RBytes(any) == [i \in 1..8 |-> RE(0..255)]
RInt(any) == LET k == RE(1..8) IN CASE k <= 2 -> RE(Edge) [] k \in 3..5 -> Of(RE(-20..20)) [] k = 6 -> RBytes(0) [] k = 7 -> [i \in 1..8 |-> IF i <= 4 THEN RE(0..255) ELSE 0] [] k = 8 -> Neg([i \in 1..8 |-> IF i <= 3 THEN RE(0..255) ELSE 0])
Halves == {0, 1, -1, 4, -4, 8, -8, 12, 20, -12, 100, 16, 2, -3}
Small(v) == IF ~IsI(v) THEN TRUE
            ELSE IF v[2][2] < 8 THEN \A i \in 3..8 : v[2][i] = 0
            ELSE v[2][2] >= 248 /\ \A i \in 3..8 : v[2][i] = 255
RNum(mix) == IF mix = 1 THEN Big(RInt(0)) ELSE IF mix = 2 THEN (IF RE(1..2) = 1 THEN I(RE(-12..12)) ELSE F(RE(Halves))) ELSE F(RE(Halves))
ToF(v) == IF IsI(v) THEN 8 * (v[2][1] + 256 * v[2][2] - (IF v[2][8] = 255 THEN 65536 ELSE 0)) ELSE v[2]
Nums == {Big(b) : b \in (IF FULL THEN Edge ELSE FewEdge)} \cup {F(n) : n \in {0, 4, -12, 16}}
Start(a, b, c) == << <<"(begin (define x " \o Lit(a) \o ") (define y " \o Lit(b) \o ") (define z " \o Lit(c) \o ") 1)", "1">> >>
Init == IF RANDOM THEN x = I(0) /\ y = I(0) /\ z = I(0) /\ steps = <<>>
        ELSE x \in Nums /\ y \in Nums /\ z \in {I(0), I(-3), F(12)} /\ steps = Start(x, y, z)
\* numbers that are close to one another
Near(a) == Big(Add(a[2], Of(RE(-2..2))))
Setup == RANDOM /\ Len(steps) % 6 = 0 /\ \E mix \in {RE(1..5)} : \E a \in {RNum(IF mix > 3 THEN 1 ELSE mix)} : \E b \in {IF mix > 3 THEN Near(a) ELSE RNum(mix)}, c \in {IF mix = 4 THEN Near(a) ELSE RNum(IF mix = 5 THEN 1 ELSE mix)} :
           x' = a /\ y' = b /\ z' = c /\ steps' = steps \o Start(a, b, c)
\* ---- outcomes
AllInt(s) == \A i \in 1..Len(s) : IsI(s[i])
Comparable(s) == IF AllInt(s) THEN TRUE ELSE \A i \in 1..Len(s) : Small(s[i])
RECURSIVE FoldI(_, _, _)
FoldI(Op(_, _), acc, s) == IF s = <<>> THEN acc ELSE FoldI(Op, Op(acc, s[1]), Tail(s))
SumI(s) == FoldI(LAMBDA a, v : Add(a, v[2]), Zero, s)
SubI(s) == FoldI(LAMBDA a, v : Sub(a, v[2]), s[1][2], Tail(s))
MulI(s) == FoldI(LAMBDA a, v : Mul(a, v[2]), One, s)
QuoI(s) == FoldI(LAMBDA a, v : Quo(a, v[2]), s[1][2], Tail(s))
SumF(s) == FoldI(LAMBDA a, v : a + ToF(v), 0, s)
SubF(s) == FoldI(LAMBDA a, v : a - ToF(v), ToF(s[1]), Tail(s))
Inexact == -99999999
\* exact products and quotients only
MulF(s) == FoldI(LAMBDA a, v : IF a = Inexact \/ (a * ToF(v)) % 8 # 0 THEN Inexact ELSE (a * ToF(v)) \div 8, 8, s)
QuoF(s) == FoldI(LAMBDA a, v : IF a = Inexact \/ ToF(v) = 0 THEN Inexact ELSE IF (a * 8) % (IF ToF(v) < 0 THEN -ToF(v) ELSE ToF(v)) # 0 THEN Inexact ELSE (IF ToF(v) < 0 THEN -((a * 8) \div (-ToF(v))) ELSE (a * 8) \div ToF(v)), ToF(s[1]), Tail(s))
Q(src, exp) == UNCHANGED <<x, y, z>> /\ steps' = Append(steps, <<src, exp>>)
QI(src, b) == Q("(let ((r " \o src \o ")) (list r (integer? r)))", Paren(<<Dec(b), "#t">>))
QF(src, n) == Q("(let ((r " \o src \o ")) (list (== r " \o FT(n) \o ") (float? r)))", "(#t #t)")
Zeroes(s) == {i \in 1..Len(s) : IF IsI(s[i]) THEN s[i][2] = Zero ELSE s[i][2] = 0} # {}
Names(t) == [i \in 1..Len(t) |-> <<"x", "y", "z">>[t[i]]]
Vals(t) == [i \in 1..Len(t) |-> <<x, y, z>>[t[i]]]
Tuples == UNION {[1..k -> 1..3] : k \in 1..3}
Pick(S) == IF RANDOM THEN {RE(S)} ELSE S
Variadic == \E t \in Pick(IF RANDOM THEN Tuples ELSE {<<1>>, <<1, 2>>, <<2, 1>>, <<1, 2, 3>>, <<3, 1, 2>>}), op \in Pick({"+", "-", "*", "/", "quotient"}) :
  LET s == Vals(t) src == Call(op, Names(t)) IN
  \/ Len(t) = 1 /\ op \in {"+", "*"} /\ (IF IsI(s[1]) THEN QI(src, s[1][2]) ELSE QF(src, s[1][2]))
  \/ Len(t) > 1 /\ op \in {"/", "quotient"} /\ Zeroes(Tail(s)) /\ Q(src, "!E")
  \/ Len(t) > 1 /\ AllInt(s) /\ ~(op \in {"/", "quotient"} /\ Zeroes(Tail(s))) /\ QI(src, CASE op = "+" -> SumI(s) [] op = "-" -> SubI(s) [] op = "*" -> MulI(s) [] OTHER -> QuoI(s))
  \/ Len(t) > 1 /\ ~AllInt(s) /\ (\A i \in 1..Len(s) : Small(s[i])) /\ op = "+" /\ QF(src, SumF(s))
  \/ Len(t) > 1 /\ ~AllInt(s) /\ (\A i \in 1..Len(s) : Small(s[i])) /\ op = "-" /\ QF(src, SubF(s))
  \/ Len(t) > 1 /\ ~AllInt(s) /\ (\A i \in 1..Len(s) : Small(s[i])) /\ op = "*" /\ MulF(s) # Inexact /\ QF(src, MulF(s))
  \/ Len(t) > 1 /\ ~AllInt(s) /\ (\A i \in 1..Len(s) : Small(s[i])) /\ op \in {"/", "quotient"} /\ ~Zeroes(Tail(s)) /\ QuoF(s) # Inexact /\ QF(src, QuoF(s))
\* a non-number at any position is an error, whatever the others are
NonNum == {"\"1\"", "'a", "'()", "#t", "'(1)", "[1]", "{a: 1}", "car"}
Misus0 == \E b \in Pick(NonNum), op \in Pick({"+", "-", "*", "/", "quotient"}), args \in Pick({<<"", "x">>, <<"", "x y">>, <<"x", "">>, <<"x", "y">>, <<"1.5", "">>, <<"x 1.5", "2">>, <<"x y", "">>, <<"1.5 x", "">>, <<"1 1", "1 1">>}) :
            Q("(" \o op \o " " \o args[1] \o " " \o b \o " " \o args[2] \o ")", "!E")
Misus10 == \E b \in Pick(NonNum) : \/ \E f \in Pick({"succ", "pred", "abs", "zero?", "positive?", "negative?", "even?", "odd?", "sign", "floor", "ceiling", "integer", "float", "sqrt", "sin", "inf?", "nan?", "float->bits", "bits->float", "binary-not"}) : Q("(" \o f \o " " \o b \o ")", "!E")
                                   \/ \E f \in Pick({"<", ">", "<=", ">=", "%", "modulo", "pow", "binary-and", "binary-or", "left-shift", "right-shift"}), k \in Pick({1, 2}) : Q("(" \o f \o (IF k = 1 THEN " x " \o b ELSE " " \o b \o " x") \o ")", "!E")
                                   \/ \E f \in Pick({"min", "max"}), k \in Pick({"x", "1.5", "x y", ""}), m \in Pick({"y", "2.5", ""}) : Q("(" \o f \o " (list " \o k \o " " \o b \o " " \o m \o "))", "!E")
Less(a, b) == IF IsI(a) /\ IsI(b) THEN Lt(a[2], b[2]) ELSE ToF(a) < ToF(b)
Compar0 == Comparable(<<x, y>>) /\ Q("(list (< x y) (> x y) (<= x y) (>= x y) (< y x) (>= y x))", Paren(<<Bool(Less(x, y)), Bool(Less(y, x)), Bool(~Less(y, x)), Bool(~Less(x, y)), Bool(Less(y, x)), Bool(~Less(y, x))>>))
MinMax == LET s == <<x, y, z>> IN Comparable(s) /\
   LET lo == CHOOSE v \in {x, y, z} : \A w \in {x, y, z} : ~Less(w, v)
       hi == CHOOSE v \in {x, y, z} : \A w \in {x, y, z} : ~Less(v, w)
   IN \E u \in Pick(1..3) :
      IF AllInt(s) THEN (CASE u = 1 -> QI("(min (list x y z))", lo[2]) [] u = 2 -> QI("(max (list x y z))", hi[2]) [] OTHER -> QI("(max (list z x))", IF Less(z, x) THEN x[2] ELSE z[2]))
      ELSE CASE u = 1 -> QF("(min (list x y z))", ToF(lo)) [] u = 2 -> QF("(max (list x y z))", ToF(hi)) [] OTHER -> QF("(min (list z y x))", ToF(lo))
Mo0 == \E f \in Pick({"%", "modulo"}) : IF ~IsI(x) \/ ~IsI(y) THEN Q("(" \o f \o " x y)", "!E") ELSE IF y[2] = Zero THEN Q("(" \o f \o " x y)", "!E") ELSE QI("(" \o f \o " x y)", Rem(x[2], y[2]))
Unar0 == IF IsI(x)
         THEN \E u \in Pick(1..15) :
              CASE u = 1 -> QI("(succ x)", Add(x[2], One)) [] u = 2 -> QI("(pred x)", Sub(x[2], One)) [] u = 3 -> QI("(abs x)", Abs(x[2]))
                [] u = 4 -> QI("(sign x)", IF x[2] = Zero THEN Zero ELSE IF Negative(x[2]) THEN Of(-1) ELSE One)
                [] u = 5 -> Q("(list (zero? x) (positive? x) (negative? x) (even? x) (odd? x))", Paren(<<Bool(x[2] = Zero), Bool(x[2] # Zero /\ ~Negative(x[2])), Bool(Negative(x[2])), Bool(x[2][1] % 2 = 0), Bool(x[2][1] % 2 = 1)>>))
                [] u = 6 -> QI("(integer x)", x[2]) [] u = 7 -> QI("(binary-not x)", [i \in 1..8 |-> IF i <= 4 THEN 255 - x[2][i] ELSE x[2][i]])
                [] u = 8 -> Q("(list (inf? x) (nan? x) (number? x) (float? x))", "(#f #f #t #f)")
                [] u = 9 -> Small(x) /\ QF("(float x)", ToF(x)) [] u = 10 -> Small(x) /\ QF("(floor x)", ToF(x)) [] u = 11 -> Small(x) /\ QF("(ceiling x)", ToF(x))
                [] u = 12 -> Q("(number->string x)", "\"" \o Dec(x[2]) \o "\"") [] u = 13 -> Q("(string->number (number->string x))", Dec(x[2]))
                [] u = 14 -> ~Negative(x[2]) /\ Q("(list (number->string x 16) (number->string x 2) (string->number (number->string x 16) 16) (string->number (number->string x 2) 2) (string->number (number->string x 8) 8))",
                                                  Paren(<<"\"" \o TextBase(x[2], 4) \o "\"", "\"" \o TextBase(x[2], 1) \o "\"", Dec(x[2]), Dec(x[2]), Dec(x[2])>>))
                [] OTHER -> Q("(list (- x) (* x) (+ x))", "?V")
         ELSE \E u \in Pick(1..9) :
              CASE u = 1 -> QF("(abs x)", IF x[2] < 0 THEN -x[2] ELSE x[2]) [] u = 2 -> QI("(sign x)", IF x[2] = 0 THEN Zero ELSE IF x[2] < 0 THEN Of(-1) ELSE One)
                [] u = 3 -> Q("(list (zero? x) (positive? x) (negative? x) (inf? x) (nan? x))", Paren(<<Bool(x[2] = 0), Bool(x[2] > 0), Bool(x[2] < 0), "#f", "#f">>))
                [] u = 4 -> QI("(integer x)", Of(IF x[2] < 0 THEN -((-x[2]) \div 8) ELSE x[2] \div 8)) [] u = 5 -> QF("(floor x)", 8 * (x[2] \div 8)) [] u = 6 -> QF("(ceiling x)", -8 * ((-x[2]) \div 8))
                [] u = 7 -> QF("(float x)", x[2]) [] u = 8 -> QF("(bits->float (float->bits x))", x[2])
                [] OTHER -> \E f \in Pick({"succ", "pred", "even?", "odd?", "binary-not"}) : Q("(" \o f \o " x)", "!E")
Powe0 == IsI(x) /\ \E n \in Pick(0..9) : QI("(pow x " \o Str(n) \o ")", Pow(x[2], n))
BitOp0 == IF IsI(x) /\ IsI(y)
          THEN \E u \in Pick(1..4) :
               CASE u = 1 -> QI("(binary-and x y)", And(x[2], y[2])) [] u = 2 -> QI("(binary-or x y)", Or(x[2], y[2]))
                 [] OTHER -> \E n \in Pick({0, 1, 5, 8, 31, 32, 63, 64, 70}) : IF u = 3 THEN QI("(left-shift x " \o Str(n) \o ")", Shl(x[2], n)) ELSE QI("(right-shift x " \o Str(n) \o ")", Shr(x[2], n))
          ELSE \E f \in Pick({"binary-and", "binary-or", "left-shift", "right-shift"}) : Q("(" \o f \o " x y)", "!E")
\* intervals of integers anywhere in the range
RECURSIVE Run(_, _, _)
Run(a, st, n) == IF n = 0 THEN <<>> ELSE <<Dec(a)>> \o Run(Add(a, st), st, n - 1)
Interva0 == IsI(x) /\ \E st \in Pick({1, 2, 5, -1, -3}), n \in Pick(0..4), over \in Pick({0, 1}) :
   LET a == x[2] e == Add(a, Of(n * st + (IF st > 1 /\ over = 1 THEN 1 ELSE IF st < -1 /\ over = 1 THEN -1 ELSE 0)))
       up == st > 0
   IN /\ (IF up THEN ~Lt(e, a) ELSE Lt(e, a))      \* inside the range of integers
      /\ (up => n >= 0) /\ (~up => n >= 1)
      /\ Q("(interval " \o Dec(a) \o " " \o Dec(e) \o (IF st = 1 \/ st = -1 THEN "" ELSE " " \o Str(st)) \o ")", Paren(Run(a, Of(st), n + 1)))
IntervalEr0 == \E s \in Pick({"(interval 1 5 -1)", "(interval 5 1 1)", "(interval 1 5 0)", "(interval 1 5 1.5)", "(interval 1.5)", "(interval \"a\" 3)", "(interval 1 'a)", "(interval '())"}) : Q(s, "!E")
Compare == (RANDOM \/ z = I(0)) /\ Compar0
Mod == (RANDOM \/ z = I(0)) /\ Mo0
Unary == (RANDOM \/ z = I(0)) /\ Unar0
Power == (RANDOM \/ z = I(0)) /\ Powe0
BitOps == (RANDOM \/ z = I(0)) /\ BitOp0
Interval == (RANDOM \/ z = I(0)) /\ Interva0
IntervalErr == (RANDOM \/ y = I(0)) /\ IntervalEr0
Misuse == (RANDOM \/ (z = I(0) /\ y \in {I(0), F(4)})) /\ Misus0
Misuse1 == (RANDOM \/ (z = I(0) /\ y \in {I(0), F(4)})) /\ Misus10
Ops == IF RANDOM THEN \E k \in {RE(1..12), RE(1..12), RE(1..12), 0} : (k = 12 /\ Misuse) \/ (k = 0 /\ Q("(list (number? x) (number? y) (== z z))", "(#t #t #t)")) \/ (k = 1 /\ Variadic) \/ (k = 2 /\ Compare) \/ (k = 3 /\ MinMax) \/ (k = 4 /\ Mod) \/ (k = 5 /\ Unary) \/ (k = 6 /\ Power) \/ (k = 7 /\ BitOps) \/ (k = 8 /\ Interval) \/ (k = 9 /\ Variadic) \/ (k = 10 /\ Misuse1) \/ (k = 11 /\ IntervalErr)
       ELSE Variadic \/ Misuse \/ Misuse1 \/ Compare \/ MinMax \/ Mod \/ Unary \/ Power \/ BitOps \/ Interval \/ IntervalErr
Next == Setup \/ (steps # <<>> /\ (~RANDOM \/ Len(steps) % 6 # 0) /\ Ops)
Spec == Init /\ [][Next]_vars
\* ---- the design: the ring and order laws
Laws == (RANDOM /\ Len(steps) % 6 # 1) \/ ~(IsI(x) /\ IsI(y)) \/
        /\ Add(x[2], y[2]) = Add(y[2], x[2]) /\ Mul(x[2], y[2]) = Mul(y[2], x[2]) /\ Sub(Add(x[2], y[2]), y[2]) = x[2]
        /\ (y[2] # Zero => Add(Mul(Quo(x[2], y[2]), y[2]), Rem(x[2], y[2])) = x[2])
        /\ (Lt(x[2], y[2]) \/ Lt(y[2], x[2])) = (x[2] # y[2])
        /\ Shr(Shl(And(x[2], Of(255)), 8), 8) = And(x[2], Of(255))
View == <<x, y, z>>
Bounded == TRUE
BoundedNext == Len(steps') <= 1 + DEPTH
EmitEdge == EmitSteps("e", steps')
EmitPath == IF Len(steps') = DEPTH THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
