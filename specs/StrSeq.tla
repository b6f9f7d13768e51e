------------------------------- MODULE StrSeq -------------------------------
(* Strings as sequences of characters: access, searching, comparison, case,     *)
(* trimming, splitting and joining, in-place case changes and format.           *)
EXTENDS Emit, Integers, FiniteSets, SequencesExt
CONSTANTS ALPHA, MAXLEN, RANDOM, DEPTH
VARIABLES x, y, al, steps      \* two strings held by variables; al: which of them the list l holds (0: neither)
vars == <<x, y, al, steps>>
RE(S) == RandomElement(S)
\* ---- characters in ascending order: index -> what a Lisp literal writes
Chars == << "\\t", "\\n", " ", "!", "\\\"", "(", ",", "0", "9", "A", "B", "Z", "\\\\", "_", "a", "b", "z", "~" >>
NC == Len(Chars)
Space == {1, 2, 3}
UpOf(c) == CASE c = 15 -> 10 [] c = 16 -> 11 [] c = 17 -> 12 [] OTHER -> c
LowOf(c) == CASE c = 10 -> 15 [] c = 11 -> 16 [] c = 12 -> 17 [] OTHER -> c
Up(s) == [i \in 1..Len(s) |-> UpOf(s[i])]
Low(s) == [i \in 1..Len(s) |-> LowOf(s[i])]
Cap(s) == [i \in 1..Len(s) |-> IF i = 1 THEN UpOf(s[i]) ELSE LowOf(s[i])]
Txt(s) == "\"" \o JoinWith([i \in 1..Len(s) |-> Chars[s[i]]], "") \o "\""          \* as a literal and in canonical form
Sub(s, i, j) == SubSeq(s, i + 1, j)                     \* [i, j) from 0
IsPre(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
IsSuf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
At(p, s, k) == k + Len(p) - 1 <= Len(s) /\ SubSeq(s, k, k + Len(p) - 1) = p
Within(p, s) == \E k \in 1..(Len(s) + 1) : At(p, s, k)
\* lexicographic order
Less(s, t) == \E k \in 1..(Len(s) + 1) : /\ \A i \in 1..(k - 1) : i <= Len(t) /\ s[i] = t[i]
                                         /\ k <= Len(t) /\ (k > Len(s) \/ (k <= Len(s) /\ s[k] < t[k]))
RECURSIVE DropL(_, _)
DropL(s, set) == IF s = <<>> THEN s ELSE IF s[1] \in set THEN DropL(Tail(s), set) ELSE s
DropR(s, set) == Reverse(DropL(Reverse(s), set))
SetOf(s) == {s[i] : i \in 1..Len(s)}
\* pieces of s between the leftmost disjoint occurrences of sep
RECURSIVE Split(_, _, _)
Split(s, sep, acc) == IF s = <<>> THEN <<acc>>
                      ELSE IF IsPre(sep, s) THEN <<acc>> \o Split(SubSeq(s, Len(sep) + 1, Len(s)), sep, <<>>)
                      ELSE Split(Tail(s), sep, Append(acc, s[1]))
Pieces(s, sep) == IF sep = <<>> THEN [i \in 1..Len(s) |-> <<s[i]>>] ELSE Split(s, sep, <<>>)
RECURSIVE Joined(_, _)
Joined(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Joined(Tail(ss), sep)
TxtList(ss) == Paren([i \in 1..Len(ss) |-> Txt(ss[i])])

Alpha == CASE ALPHA = "few" -> {3, 10, 15} [] ALPHA = "more" -> {2, 3, 7, 11, 15, 16} [] ALPHA = "all" -> 2..NC
Strs == UNION {[1..k -> Alpha] : k \in 0..MAXLEN}
RStr(any) == [i \in 1..RE(0..MAXLEN) |-> RE(Alpha)]
Pick(S) == IF RANDOM THEN {RE(S)} ELSE S
Start(a, b) == << <<"(begin (define x (str " \o Txt(a) \o ")) (define y (str " \o Txt(b) \o ")) (define l '()) 1)", "1">> >>
Init == /\ al = 0
        /\ IF RANDOM THEN x = <<>> /\ y = <<>> /\ steps = Start(<<>>, <<>>)
           ELSE x \in Strs /\ y \in Strs /\ steps = Start(x, y)
Q(src, exp) == UNCHANGED <<x, y, al>> /\ steps' = Append(steps, <<src, exp>>)
Set == RANDOM /\ \E k \in {RE(1..4)} : \E a \in {RStr(0)} : \E b \in {IF k = 1 THEN a ELSE IF k = 2 THEN Cap(a) ELSE IF k = 3 THEN (IF a = <<>> THEN <<>> ELSE LET i == RE(0..Len(a)) IN Sub(a, i, RE(i..Len(a)))) ELSE RStr(0)} :
         x' = a /\ y' = b /\ al' = 0 /\ steps' = steps \o Start(a, b)
Vs == <<"x", "y">>
Val(v) == IF v = 1 THEN x ELSE y
Unary == \E v \in Pick({1, 2}), op \in Pick(1..9) : LET s == Val(v) a == Vs[v] IN
  CASE op = 1 -> Q("(string-length " \o a \o ")", Str(Len(s)))
    [] op = 2 -> Q("(string-null? " \o a \o ")", Bool(s = <<>>))
    [] op = 3 -> Q("(string-upcase " \o a \o ")", Txt(Up(s)))
    [] op = 4 -> Q("(string-downcase " \o a \o ")", Txt(Low(s)))
    [] op = 5 -> Q("(string-capitalize " \o a \o ")", Txt(Cap(s)))
    [] op = 6 -> Q("(string-trim " \o a \o ")", Txt(DropL(DropR(s, Space), Space)))
    [] op = 7 -> Q("(string-trim-left " \o a \o ")", Txt(DropL(s, Space)))
    [] op = 8 -> Q("(string-trim-right " \o a \o ")", Txt(DropR(s, Space)))
    [] op = 9 -> Q("(list (str " \o a \o ") (str " \o a \o " " \o a \o ") (string? " \o a \o ") (copy " \o a \o "))", "(" \o Txt(s) \o " " \o Txt(s \o s) \o " #t " \o Txt(s) \o ")")
Binary == \E v \in Pick({1, 2}), w \in Pick({1, 2}), op \in Pick(1..11) : LET s == Val(v) t == Val(w) a == " " \o Vs[v] \o " " \o Vs[w] \o ")" IN
  CASE op = 1 -> Q("(list (string=?" \o a \o " (string-ci=?" \o a \o ")", Paren(<<Bool(s = t), Bool(Low(s) = Low(t))>>))
    [] op = 2 -> Q("(list (string<?" \o a \o " (string>?" \o a \o " (string<=?" \o a \o " (string>=?" \o a \o ")", Paren(<<Bool(Less(s, t)), Bool(Less(t, s)), Bool(~Less(t, s)), Bool(~Less(s, t))>>))
    [] op = 3 -> LET p == Low(s) q == Low(t) IN Q("(list (string-ci<?" \o a \o " (string-ci>?" \o a \o " (string-ci<=?" \o a \o " (string-ci>=?" \o a \o ")", Paren(<<Bool(Less(p, q)), Bool(Less(q, p)), Bool(~Less(q, p)), Bool(~Less(p, q))>>))
    [] op = 4 -> Q("(list (string-prefix?" \o a \o " (string-suffix?" \o a \o " (substring?" \o a \o ")", Paren(<<Bool(IsPre(s, t)), Bool(IsSuf(s, t)), Bool(Within(s, t))>>))
    [] op = 5 -> Q("(string-split" \o a, TxtList(Pieces(s, t)))
    [] op = 6 -> Q("(let ((p (string-split" \o a \o ")) (string-join p " \o Vs[w] \o "))", Txt(s))
    [] op = 7 -> Q("(string-join (list x y x) " \o Vs[w] \o ")", Txt(Joined(<<x, y, x>>, t)))
    [] op = 8 -> LET z == SetOf(t) IN Q("(list (string-trim" \o a \o " (string-trim-left" \o a \o " (string-trim-right" \o a \o ")", TxtList(<<DropL(DropR(s, z), z), DropL(s, z), DropR(s, z)>>))
    [] op = 9 -> Q("(list (str" \o a \o " (string-length (str" \o a \o "))", Paren(<<Txt(s \o t), Str(Len(s) + Len(t))>>))
    [] op = 10 -> Q("(list (equal?" \o a \o " (eq? (intern " \o Vs[v] \o ") (intern " \o Vs[w] \o ")))", Paren(<<Bool(s = t), Bool(s = t)>>))
    [] op = 11 -> Q("(list (string-join (list " \o Vs[v] \o " " \o Vs[w] \o ")) (string-join (list " \o Vs[v] \o ") " \o Vs[w] \o ") (string-join '() " \o Vs[w] \o "))", TxtList(<<s \o t, s, <<>> >>))
Subs == \E v \in Pick({1, 2}), i \in Pick(-2..(MAXLEN + 2)), j \in Pick(-2..(MAXLEN + 2)) : LET s == Val(v) IN
  Q("(substring " \o Vs[v] \o " " \o Str(i) \o " " \o Str(j) \o ")", IF 0 <= i /\ i <= j /\ j <= Len(s) THEN Txt(Sub(s, i, j)) ELSE "!E")
\* in place: the string changes wherever it is held
Hold == \E v \in Pick({1, 2}) : al' = v /\ UNCHANGED <<x, y>> /\ steps' = Append(steps, <<"(begin (set! l (list 1 " \o Vs[v] \o ")) l)", Paren(<<"1", Txt(Val(v))>>)>>)
Bang == \E v \in Pick({1, 2}), k \in Pick(1..3) : LET r == <<Up(Val(v)), Low(Val(v)), Cap(Val(v))>>[k] nx == IF v = 1 THEN r ELSE x ny == IF v = 2 THEN r ELSE y IN
  /\ x' = nx /\ y' = ny /\ al' = al
  /\ steps' = Append(steps, <<"(list (" \o <<"string-upcase! ", "string-downcase! ", "string-capitalize! ">>[k] \o Vs[v] \o ") x y l)",
       Paren(<<Txt(r), Txt(nx), Txt(ny), IF al = 0 THEN "()" ELSE Paren(<<"1", Txt(IF al = 1 THEN nx ELSE ny)>>)>>)>>)
\* ---- format
Dirs == <<"A", "S", "a", "s">>
Pad(t, w, left) == LET k == IF w > Len(t) THEN w - Len(t) ELSE 0 sp == [i \in 1..k |-> 3] IN IF left THEN sp \o t ELSE t \o sp
Esc(c) == CASE c = 1 -> <<"\\", "t">> [] OTHER -> <<>>
\* what ~S writes for a string; left to strings without characters that are written as two
PlainStr(s) == \A i \in 1..Len(s) : s[i] \notin {1, 2, 5, 13}
Quoted(s) == <<5>> \o s \o <<5>>
\* argument: <<Lisp, sequence for ~A, sequence for ~S>>
Arg(k, v) == CASE k = 1 -> <<Vs[v], Val(v), Quoted(Val(v))>> [] k = 2 -> <<"9", <<9>>, <<9>> >> [] k = 3 -> <<"'ab", <<15, 16>>, <<15, 16>> >> [] k = 4 -> <<"90", <<9, 8>>, <<9, 8>> >>
\* part of a control string: <<text, number of arguments it takes, kind, width, left>>
RPart(any) == LET k == RE(1..9) w == RE(0..6) at == RE({TRUE, FALSE}) d == Dirs[RE(1..4)] IN
  CASE k \in 1..3 -> <<"~" \o (IF RE(1..3) = 1 THEN "" ELSE Str(w)), d, w, at>>
    [] k = 4 -> <<"~V", d, w, at>>
    [] k = 5 -> <<"~#", d, w, at>>
    [] k = 6 -> <<"~", "%", RE(0..3), FALSE>>
    [] k = 7 -> <<"~", "~", RE(0..3), FALSE>>
    [] k = 8 -> <<"", "lit", 0, FALSE>>
    [] k = 9 -> <<"~", "nl", 0, at>>
Takes(p) == IF p[2] \in {"%", "~", "lit", "nl"} THEN 0 ELSE 1
IsV(p) == p[1] = "~V"
PText(p) == CASE p[2] = "lit" -> "b, A" [] p[2] = "nl" -> "~" \o (IF p[4] THEN "@" ELSE "") \o "\\n  \\n" \o "a"
              [] p[2] \in {"%", "~"} -> "~" \o (IF p[3] = 0 THEN "" ELSE Str(p[3])) \o p[2]
              [] OTHER -> p[1] \o (IF p[4] THEN "@" ELSE "") \o p[2]
\* how many argument expressions parts from i on take
RECURSIVE Uses(_, _)
Uses(ps, i) == IF i > Len(ps) THEN 0 ELSE (IF IsV(ps[i]) THEN 2 ELSE Takes(ps[i])) + Uses(ps, i + 1)
RECURSIVE FOut(_, _, _), FArgs(_, _, _)
FArgs(ps, as, i) == IF i > Len(ps) THEN <<>> ELSE (IF IsV(ps[i]) THEN <<Str(ps[i][3])>> ELSE <<>>) \o (IF Takes(ps[i]) = 1 THEN <<as[i][1]>> ELSE <<>>) \o FArgs(ps, as, i + 1)
FOut(ps, as, i) == IF i > Len(ps) THEN <<>> ELSE LET p == ps[i] IN
  (CASE p[2] = "lit" -> <<16, 7, 3, 10>>
     [] p[2] = "nl" -> IF p[4] THEN <<2, 15>> ELSE <<15>>
     [] p[2] = "%" -> [j \in 1..(IF p[3] = 0 THEN 1 ELSE p[3]) |-> 2]
     [] p[2] = "~" -> [j \in 1..(IF p[3] = 0 THEN 1 ELSE p[3]) |-> 18]
     [] OTHER -> LET t == IF p[2] \in {"A", "a"} THEN as[i][2] ELSE as[i][3]
                     w == IF p[1] = "~#" THEN Uses(ps, i) ELSE IF p[1] = "~" THEN 0 ELSE p[3] IN Pad(t, w, p[4])) \o FOut(ps, as, i + 1)
FormatOf(ps, as, k) ==
  LET fa == FArgs(ps, as, 1) ctl == "\"" \o JoinWith([i \in 1..Len(ps) |-> PText(ps[i])], "") IN
  CASE k = 1 /\ fa # <<>> -> Q("(format #f " \o ctl \o "\" " \o JoinWith(SubSeq(fa, 1, Len(fa) - 1), " ") \o ")", "!E")      \* one argument too few
    [] k = 2 -> Q("(format #f " \o ctl \o "\" " \o JoinWith(Append(fa, "1"), " ") \o ")", "!E")                            \* one too many
    [] k = 3 -> Q("(format #f " \o ctl \o "~\" " \o JoinWith(fa, " ") \o ")", "!E")
    [] k = 4 -> Q("(format #f " \o ctl \o "~3Q\" " \o JoinWith(fa, " ") \o ")", "!E")
    [] OTHER -> Q("(format #f " \o ctl \o "\" " \o JoinWith(fa, " ") \o ")", Txt(FOut(ps, as, 1)))
\* a # counts the arguments that are left, which is only known when the call has just those
Format == \E np \in {RE(0..4)}, k \in {RE(1..12)} : \E ps \in {[i \in 1..np |-> RPart(0)]}, as \in {[i \in 1..np |-> Arg(RE(1..4), RE(1..2))]} :
   (\A i \in 1..np : PlainStr(as[i][2]) /\ (ps[i][1] = "~" /\ ps[i][2] \in {"A", "S", "a", "s"} => TRUE)) /\ FormatOf(ps, as, k)
\* ---- not a string
NotStr == <<"5", "'a", "'()", "(list x)", "#t", "1.5", "[1]", "{}">>
BadArgs == \E k \in Pick(1..Len(NotStr)), op \in Pick(1..4) : LET b == NotStr[k] IN
  CASE op = 1 -> \E f \in Pick({"string-length", "string-null?", "string-upcase", "string-downcase", "string-capitalize", "string-upcase!", "string-downcase!", "string-capitalize!", "string-trim", "string-trim-left", "string-trim-right"}) : Q(Call(f, <<b>>), "!E")
    [] op = 2 -> \E f \in Pick({"string=?", "string<?", "string>?", "string<=?", "string>=?", "string-ci=?", "string-ci<?", "string-ci>?", "string-ci<=?", "string-ci>=?", "string-prefix?", "string-suffix?", "substring?", "string-split", "string-trim", "string-trim-left", "string-trim-right"}), first \in Pick({TRUE, FALSE}) :
                   Q(Call(f, IF first THEN <<b, "x">> ELSE <<"x", b>>), "!E")
    [] op = 3 -> Q("(list (on-error (substring " \o b \o " 0 0) (lambda (e) 'e)) (on-error (substring \"abc\" " \o (IF b = "5" THEN "\"1\"" ELSE b) \o " 2) (lambda (e) 'e)) (on-error (substring \"abc\" 1 " \o (IF b = "5" THEN "\"2\"" ELSE b) \o ") (lambda (e) 'e)))", "(e e e)")
    [] op = 4 -> IF b \in {"'()", "(list x)"} THEN Q("(string-join (list x 5) y)", "!E") ELSE Q("(list (on-error (string-join " \o b \o " x) (lambda (e) 'e)) (on-error (string-join (list x " \o b \o " y) x) (lambda (e) 'e)) (on-error (string-join (list x y) " \o b \o ") (lambda (e) 'e)))", "(e e e)")
Once == ~RANDOM => Len(steps) <= 1
Next == Once /\ (Set \/ Unary \/ Binary \/ Subs \/ Hold \/ Bang \/ (RANDOM /\ (Format \/ BadArgs)))
Spec == Init /\ [][Next]_vars
\* ---- the design: laws of the operations
Laws == /\ Joined(Pieces(x, y), y) = x
        /\ ~(Less(x, y) /\ Less(y, x)) /\ (Less(x, y) \/ Less(y, x) \/ x = y)
        /\ (IsPre(x, y) => Within(x, y) /\ ~Less(y, x)) /\ Low(Up(x)) = Low(x)
View == <<x, y, al>>
Bounded == TRUE
BoundedNext == Len(steps') <= 2
EmitEdge == EmitSteps("e", steps')
EmitPath == IF Len(steps') >= DEPTH THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
