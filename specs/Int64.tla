------------------------------- MODULE Int64 --------------------------------
(* 64-bit two's complement integers as 8 bytes, least significant first, so    *)
(* that TLC's 32-bit integers suffice.  Loops are folds, which TLC evaluates    *)
(* strictly.                                                                    *)
EXTENDS Integers, Sequences, SequencesExt, TLC
W == 8
Zero == <<0, 0, 0, 0, 0, 0, 0, 0>>
One == <<1, 0, 0, 0, 0, 0, 0, 0>>
Max64 == <<255, 255, 255, 255, 255, 255, 255, 127>>
Min64 == <<0, 0, 0, 0, 0, 0, 0, 128>>
Up == <<1, 2, 3, 4, 5, 6, 7, 8>>
Down == <<8, 7, 6, 5, 4, 3, 2, 1>>
Negative(a) == a[W] >= 128
AddC(a, b, c) == FoldLeft(LAMBDA acc, i : LET s == a[i] + b[i] + acc[2] IN <<Append(acc[1], s % 256), s \div 256>>, << <<>>, c>>, Up)[1]
Add(a, b) == AddC(a, b, 0)
Not(a) == [i \in 1..W |-> 255 - a[i]]
Neg(a) == AddC(Zero, Not(a), 1)
Sub(a, b) == AddC(a, Not(b), 1)
\* n of TLC's own range
Bytes(n) == FoldLeft(LAMBDA acc, i : <<Append(acc[1], acc[2] % 256), acc[2] \div 256>>, << <<>>, n>>, Up)[1]
Of(n) == IF n >= 0 THEN Bytes(n) ELSE Neg(Bytes(-n))
\* unsigned comparison, then signed
Cmp(a, b) == FoldLeft(LAMBDA acc, i : IF acc # 0 THEN acc ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE 0, 0, Down)
ULt(a, b) == Cmp(a, b) = -1
Lt(a, b) == IF Negative(a) # Negative(b) THEN Negative(a) ELSE ULt(a, b)
Le(a, b) == ~Lt(b, a)
\* schoolbook multiplication modulo 2^64
Col(a, b, k) == FoldLeft(LAMBDA acc, i : IF i > k THEN acc ELSE acc + a[i] * b[k + 1 - i], 0, Up)
Mul(a, b) == FoldLeft(LAMBDA acc, k : LET s == Col(a, b, k) + acc[2] IN <<Append(acc[1], s % 256), s \div 256>>, << <<>>, 0>>, Up)[1]
Abs(a) == IF Negative(a) THEN Neg(a) ELSE a
\* unsigned division, bit by bit: <<quotient, remainder>>
Twice(a, c) == AddC(a, a, c)
Bit(a, n) == (a[(n \div 8) + 1] \div (2^(n % 8))) % 2
BitsDown == [i \in 1..64 |-> 64 - i]
DivStep(a, b, q, r, n) ==
  LET r2 == Twice(r, Bit(a, n)) fits == r[W] >= 128 \/ ~ULt(r2, b)
  IN IF fits THEN <<Twice(q, 1), Sub(r2, b)>> ELSE <<Twice(q, 0), r2>>
UDiv(a, b) == FoldLeft(LAMBDA acc, n : DivStep(a, b, acc[1], acc[2], n), <<Zero, Zero>>, BitsDown)
\* truncating division and the remainder with the sign of the dividend
Quo(a, b) == LET q == UDiv(Abs(a), Abs(b))[1] IN IF Negative(a) # Negative(b) THEN Neg(q) ELSE q
Rem(a, b) == LET r == UDiv(Abs(a), Abs(b))[2] IN IF Negative(a) THEN Neg(r) ELSE r
\* bits
ByteAnd(x, y) == FoldLeft(LAMBDA acc, k : acc + (IF (x \div (2^k)) % 2 = 1 /\ (y \div (2^k)) % 2 = 1 THEN 2^k ELSE 0), 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)
And(a, b) == [i \in 1..W |-> ByteAnd(a[i], b[i])]
Or(a, b) == [i \in 1..W |-> 255 - ByteAnd(255 - a[i], 255 - b[i])]
Half(a) == [i \in 1..W |-> (a[i] \div 2) + (IF i < W THEN (a[i + 1] % 2) * 128 ELSE 0)]
UpTo(n) == [i \in 1..n |-> i]
Shl(a, n) == IF n >= 64 THEN Zero ELSE FoldLeft(LAMBDA acc, i : Twice(acc, 0), a, UpTo(n))
Shr(a, n) == IF n >= 64 THEN Zero ELSE FoldLeft(LAMBDA acc, i : Half(acc), a, UpTo(n))   \* fills with zeros
\* decimal text
DivTen(a) == FoldLeft(LAMBDA acc, i : LET x == acc[2] * 256 + a[i] IN <<[acc[1] EXCEPT ![i] = x \div 10], x % 10>>, <<Zero, 0>>, Down)
UText(a) == FoldLeft(LAMBDA acc, i : IF acc[1] = Zero /\ i > 1 THEN acc ELSE LET d == DivTen(acc[1]) IN <<d[1], ToString(d[2]) \o acc[2]>>, <<a, "">>, UpTo(20))[2]
Dec(a) == IF Negative(a) THEN "-" \o UText(Neg(a)) ELSE UText(a)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
TextBase(a, bits) == FoldLeft(LAMBDA acc, i : IF acc[1] = Zero /\ i > 1 THEN acc ELSE <<Shr(acc[1], bits), Digits[(acc[1][1] % (2^bits)) + 1] \o acc[2]>>, <<a, "">>, UpTo(64))[2]
\* integer power by repeated multiplication
Pow(a, n) == FoldLeft(LAMBDA acc, i : Mul(acc, a), One, UpTo(n))
=============================================================================
