------------------------------- MODULE Reader -------------------------------
(* The reader: what a text denotes, as a grammar over tokens, whatever stands   *)
(* between them; and that printing followed by reading gives the value back.    *)
EXTENDS Values
CONSTANTS MODE,     \* "tokens": every sequence of tokens up to MAXLEN; "sim": random texts and values
          ALPHA,    \* which tokens
          MAXLEN, DEPTH
VARIABLES toks, steps
vars == <<toks, steps>>
RE(S) == RandomElement(S)

\* ---- tokens: <<kind, text, value>>; kind: the bracket itself, a prefix, "." or "atom"; "bad" is an error
Br(t) == <<t, t, VNil>>
Prefixes == [q \in {"'", "`", ",", ",@"} |-> CASE q = "'" -> "quote" [] q = "`" -> "quasiquote" [] q = "," -> "unquote" [] q = ",@" -> "unquote-splicing"]
Atom(t, v) == <<"atom", t, v>>
Bad(t) == <<"bad", t, VNil>>
Lit ==    \* literals and what they denote
 << Atom("1", VI("1")), Atom("a", VY("a")), Atom("-1", VI("-1")), Atom("256", VI("256")), Atom("1.5", VF("1.5")), Atom("\"s\"", VS("s")),
    Atom("0", VI("0")), Atom("255", VI("255")), Atom("007", VI("7")), Atom("9223372036854775807", VI("9223372036854775807")), Atom("-9223372036854775808", VI("-9223372036854775808")),
    Atom("0x1F", VI("31")), Atom("0xff", VI("255")), Atom("#xff", VI("255")), Atom("#xFF", VI("255")), Atom("#b101", VI("5")), Atom("#b0", VI("0")), Atom("0x0", VI("0")),
    Atom("0x7fffffffffffffff", VI("9223372036854775807")), Atom("#b11111111", VI("255")), Atom("0xabcDEF", VI("11259375")),
    Atom("-0.25", VF("-0.25")), Atom("0.1", VF("0.1")), Atom("2.0", VX("2.0", "2f")), Atom("16777216.0", VX("16777216.0", "1.6777216e+07f")), Atom("100000.5", VF("100000.5")), Atom("0.000001", VX("0.000001", "1e-06f")), Atom("123.456", VF("123.456")),
    Atom("\"\"", VS("")), Atom("\"a\\\"b\"", VX("\"a\\\"b\"", "\"a\\\"b\"")), Atom("\"a\\nb\"", VS("a\\nb")), Atom("\"a\\\\b\"", VS("a\\\\b")), Atom("\"x ; (no comment\"", VS("x ; (no comment")), Atom("\"a\nb\"", VS("a\\nb")), Atom("\"'\"", VS("'")), Atom("\"\\q\"", VS("q")), Atom("\"[1]\"", VS("[1]")),
    Atom("a-b", VY("a-b")), Atom("+", VY("+")), Atom("-", VY("-")), Atom("->x", VY("->x")), Atom("a.b", VY("a.b")), Atom("nil", VY("nil")), Atom("k:", VY("k:")), Atom("p*:", VY("p*:")), Atom("<=?", VY("<=?")), Atom("+5", VY("+5")), Atom("-a", VY("-a")), Atom("...", VY("...")), Atom("-.a", VY("-.a")), Atom(".a", VY(".a")), Atom("+.", VY("+.")), Atom("-x1", VY("-x1")), Atom("--1", VY("--1")), Atom("-.5", VY("-.5")), Atom("x1", VY("x1")), Atom("a:!", VY("a:!")), Atom("A", VY("A")),
    Atom("#t", VB("#t")), Atom("#f", VB("#f")) >>
Wrong == << Bad("9223372036854775808"), Bad("-9223372036854775809"), Bad("0xFFFFFFFFFFFFFFFF"), Bad("#x"), Bad("#b"), Bad("0x"), Bad("#q"), Bad("|"), Bad("1000000000000000000000000000000000000000000.0"), Bad("#") >>
Tokens(al) == CASE al = "few" -> {Br(t) : t \in {"(", ")", "[", "]", "{", "}", "."}} \cup {Br("'"), Lit[1], Lit[2]}
                [] al = "parens" -> {Br(t) : t \in {"(", ")", ".", "'", "`", ",", ",@"}} \cup {Lit[1], Lit[2]}
                [] al = "lits" -> {Br(t) : t \in {"(", ")", "[", "]", "{", "}", ".", "'"}} \cup {Lit[i] : i \in 1..Len(Lit)} \cup {Wrong[i] : i \in 1..Len(Wrong)}

\* ---- the grammar: <<"ok", value, rest>>, <<"eof">>, <<"err">>, or <<"any">> for what is left open
RECURSIVE Read(_), Inner(_), ReadList(_, _), ReadSeq(_, _, _)
Read(s) ==
  IF s = <<>> THEN <<"eof">> ELSE
  LET k == s[1][1] r == Tail(s) IN
  CASE k = "atom" -> <<"ok", s[1][3], r>>
    [] k = "bad" -> <<"err">>
    [] k = "any" -> <<"any">>                      \* left open by the lexer
    [] k = "(" -> ReadList(r, <<>>)
    [] k = ")" -> <<"any">>                        \* a surplus ) is left open
    [] k = "[" -> LET q == ReadSeq(r, <<>>, "]") IN
                  IF q[1] # "ok" THEN q
                  ELSE IF \E i \in 1..Len(q[2]) : T(q[2][i]) \notin {"i", "y", "c", "n"} THEN <<"err">>
                  ELSE IF \E i \in 1..Len(q[2]) : T(q[2][i]) = "i" /\ q[2][i][2] \notin {Str(n) : n \in 0..255} THEN <<"err">>
                  ELSE IF \A i \in 1..Len(q[2]) : T(q[2][i]) = "i" THEN <<"ok", VBytes([i \in 1..Len(q[2]) |-> CHOOSE n \in 0..255 : Str(n) = q[2][i][2]]), q[3]>>
                  ELSE <<"ok", VList(<<VY("list->bytearray"), VList(<<VY("list")>> \o q[2])>>), q[3]>>
    [] k = "{" -> LET q == ReadSeq(r, <<>>, "}") IN IF q[1] # "ok" THEN q ELSE <<"ok", VList(<<VY("make-frame")>> \o q[2]), q[3]>>
    [] k \in DOMAIN Prefixes -> LET q == Inner(r) IN IF q[1] # "ok" THEN q ELSE <<"ok", VList(<<VY(Prefixes[k]), q[2]>>), q[3]>>
    [] OTHER -> <<"err">>                           \* ] } .
Inner(s) == IF s # <<>> /\ s[1][1] = ")" THEN <<"err">> ELSE LET q == Read(s) IN IF q[1] = "eof" THEN <<"err">> ELSE q
RECURSIVE WithTail(_, _)
WithTail(xs, tl) == IF xs = <<>> THEN tl ELSE VC(xs[1], WithTail(Tail(xs), tl))
ReadList(s, xs) ==
  IF s = <<>> THEN <<"err">> ELSE
  CASE s[1][1] = ")" -> <<"ok", VList(xs), Tail(s)>>
    [] s[1][1] = "." -> IF xs = <<>> THEN <<"any">>
                        ELSE LET q == Inner(Tail(s)) IN
                        IF q[1] # "ok" THEN q
                        ELSE IF q[3] # <<>> /\ q[3][1][1] = ")" THEN <<"ok", WithTail(xs, q[2]), Tail(q[3])>> ELSE <<"err">>
    [] OTHER -> LET q == Read(s) IN IF q[1] # "ok" THEN (IF q[1] = "eof" THEN <<"err">> ELSE q) ELSE ReadList(q[3], Append(xs, q[2]))
ReadSeq(s, xs, close) ==
  IF s # <<>> /\ s[1][1] = close THEN <<"ok", xs, Tail(s)>>
  ELSE LET q == Inner(s) IN IF q[1] # "ok" THEN q ELSE ReadSeq(q[3], Append(xs, q[2]), close)
RECURSIVE ReadAll(_, _)
ReadAll(s, vs) == LET q == Read(s) IN
  CASE q[1] = "eof" -> Paren([i \in 1..Len(vs) |-> Canon(vs[i])])
    [] q[1] = "err" -> "!E"
    [] q[1] = "any" -> "*"
    [] OTHER -> ReadAll(q[3], Append(vs, q[2]))

\* ---- text: tokens with something between them
Wordy(t) == t[1] \in {"atom", "bad"}
Apart(x, y) == (Wordy(x) /\ Wordy(y) /\ y[2] # "\"s\"") \/ x[1] = "."  \/ y[1] = "." \/ (x[1] = "," /\ y[1] = ",@")
Gaps == <<" ", "\n", "\t", " \n  ", "; c\n", " ;(\"\n ", "\r\n", ";; a\n;; b\n">>
Gap(k, must) == IF must THEN (IF k = 5 THEN " ; c\n" ELSE IF k = 8 THEN " ; b\n" ELSE Gaps[k]) ELSE Gaps[k]
RECURSIVE Render(_, _)
Render(s, tight) ==   \* tight: nothing between tokens where nothing is needed
  IF Len(s) = 0 THEN "" ELSE IF Len(s) = 1 THEN s[1][2] \o (IF s[1][1] = "." THEN " " ELSE "")
  ELSE s[1][2] \o (IF tight THEN (IF Apart(s[1], s[2]) THEN " " ELSE "") ELSE Gap(RE(1..8), TRUE)) \o Render(Tail(s), tight)

\* ---- random data for texts: the tokens of a datum
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Digits16 == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE Num(_, _)
Num(ds, base) == IF ds = <<>> THEN 0 ELSE Num(SubSeq(ds, 1, Len(ds) - 1), base) * base + ds[Len(ds)]
DigitText(ds) == JoinWith([i \in 1..Len(ds) |-> Digits16[ds[i] + 1]], "")
RNum == LET k == RE(1..4)
            ds == CASE k <= 2 -> [i \in 1..RE(1..7) |-> RE(0..15)] [] k = 3 -> [i \in 1..RE(1..30) |-> RE(0..1)] [] k = 4 -> [i \in 1..RE(1..9) |-> RE(0..9)]
        IN CASE k = 1 -> Atom("0x" \o DigitText(ds), VI(Str(Num(ds, 16)))) [] k = 2 -> Atom("#x" \o DigitText(ds), VI(Str(Num(ds, 16))))
             [] k = 3 -> Atom("#b" \o DigitText(ds), VI(Str(Num(ds, 2)))) [] k = 4 -> Atom(DigitText(ds), VI(Str(Num(ds, 10))))
RECURSIVE RToks(_)
RToks(d) == LET k == IF d = 0 THEN RE(1..3) ELSE RE(1..14) IN
  CASE k <= 2 -> <<Lit[RE(1..Len(Lit))]>>
    [] k = 3 -> <<RNum>>
    [] k \in 4..7 -> LET n == RE(0..4) IN <<Br("(")>> \o Flat([i \in 1..n |-> RToks(d - 1)]) \o <<Br(")")>>
    [] k = 8 -> LET n == RE(1..3) IN <<Br("(")>> \o Flat([i \in 1..n |-> RToks(d - 1)]) \o <<Br(".")>> \o RToks(d - 1) \o <<Br(")")>>
    [] k = 9 -> LET n == RE(0..4) IN <<Br("[")>> \o [i \in 1..n |-> Atom(Str(RE(0..255)), VNil)] \o <<Br("]")>>
    [] k = 10 -> LET n == RE(0..3) IN <<Br("{")>> \o Flat([i \in 1..n |-> <<Atom("k:", VY("k:"))>> \o RToks(d - 1)]) \o <<Br("}")>>
    [] OTHER -> <<Br(RE({"'", "`", ",", ",@"}))>> \o RToks(d - 1)
Fix(s) == [i \in 1..Len(s) |-> IF s[i][1] = "atom" /\ s[i][3] = VNil THEN Atom(s[i][2], VI(s[i][2])) ELSE s[i]]
\* damage: drop, duplicate or replace one token
Damage(s) == IF s = <<>> THEN s ELSE LET i == RE(1..Len(s)) k == RE(1..4) IN
  CASE k = 1 -> SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
    [] k = 2 -> SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))
    [] k = 3 -> [s EXCEPT ![i] = Br(RE({"(", ")", "[", "]", "{", "}", "."}))]
    [] k = 4 -> [s EXCEPT ![i] = Wrong[RE(1..Len(Wrong))]]

\* ---- random values to print and read
XAtoms == {VX("100000000000000000000.0", "1e+20f"), VX("1234567890123456789012345678.0", "1.2345679e+27f"), VX("0.00000012", "1.2e-07f"), VX("0.0000000000000000000000000000000000001", "1e-37f"), VX("33333333.0", "3.3333332e+07f"), VX("-4000000000.0", "-4e+09f"),
           VX("\"q\\\"q\"", "\"q\\\"q\""), VX("\"b\\\\b\"", "\"b\\\\b\""), VX("\"\\\\\"", "\"\\\\\""), VX("\"x\\ny\"", "\"x\\ny\""), VX("\"\\\\n\"", "\"\\\\n\""), VX("\"tab\ttab\"", "\"tab\\ttab\""), VX("\"\\\\\\\"\"", "\"\\\\\\\"\"")}
PAtoms == {Lit[i][3] : i \in 1..28} \cup {VS(""), VS("a b"), VS("("), VS("; x"), VY("a-b"), VY("->x"), VY("k:"), VY("..."), VB("#t"), VB("#f"), VNil} \cup XAtoms
SelfEval == {v \in PAtoms : T(v) \in {"i", "f", "s", "b", "n", "x"}}
RECURSIVE RVal(_)
RVal(d) == LET k == IF d = 0 THEN 1 ELSE RE(1..9) IN
  CASE k <= 2 -> RE(PAtoms)
    [] k \in 3..5 -> LET n == RE(0..4) IN VList([i \in 1..n |-> RVal(d - 1)])
    [] k = 6 -> VC(RVal(d - 1), RVal(d - 1))
    [] k = 7 -> VBytes([i \in 1..RE(0..3) |-> RE(0..255)])
    [] k = 8 -> VList(<<VY(RE({"quote", "quasiquote", "unquote", "unquote-splicing", "make-frame"})), RVal(d - 1)>>)
    [] k = 9 -> VList(<<VY("quote"), RVal(d - 1), RVal(d - 1)>>)
RFrame == LET ks == << <<>>, <<"a:">>, <<"a:", "b:">>, <<"a:", "b:", "c*:">> >>[RE(1..4)] IN
  VFrame([i \in 1..Len(ks) |-> <<ks[i], IF RE(1..4) = 1 THEN VBytes([j \in 1..RE(0..3) |-> RE(0..255)]) ELSE IF RE(1..4) = 1 THEN VFrame(<< <<"z:", RE(SelfEval)>> >>) ELSE RE(SelfEval)>>])
\* the exact float of a bit pattern: any finite one
RBits(any) == Str(RE(0..254) * 8388608 + RE(0..8388607))

Init == /\ steps = <<>> /\ toks = <<>>
Q(src, exp, mode) == steps' = Append(steps, <<src, exp, mode>>)
AddToken == /\ MODE = "tokens" /\ Len(toks) < MAXLEN
            /\ \E t \in Tokens(ALPHA) : toks' = Append(toks, t) /\ steps' = << <<Render(toks', TRUE), ReadAll(toks', <<>>), "p">>, <<Render(toks', FALSE), ReadAll(toks', <<>>), "p">> >>
Texts == /\ MODE = "sim" /\ toks' = <<>>
         /\ \E k \in {RE(1..4)}, m \in {RE(1..2)} :
            \E s \in {Fix(Flat([i \in 1..RE(1..3) |-> RToks(4)]))} : \E q \in {IF m = 1 THEN s ELSE Damage(s)} :
              Q((IF k = 2 THEN Gaps[RE(1..8)] ELSE "") \o Render(q, k = 1) \o (IF k \in 2..3 THEN Gaps[RE(1..8)] ELSE ""), ReadAll(q, <<>>), "p")
RoundTrip == MODE = "sim" /\ toks' = <<>> /\ \E v \in {RVal(4)}, y \in {RE(1..3)} : Q(IF Quotable(v) /\ y <= 2 THEN "'" \o Text(v) ELSE Make(v, y), Canon(v), "r")
FrameTrip == MODE = "sim" /\ toks' = <<>> /\ \E v \in {RFrame}, y \in {RE(1..4)} : Q(Make(v, y), Canon(v), "r")
FloatTrip == MODE = "sim" /\ toks' = <<>> /\ \E b \in {RBits(0)} : Q("(list (bits->float " \o b \o ") (- 0.0 (bits->float " \o b \o ")))", "#t", "s")
IntTrip == MODE = "sim" /\ toks' = <<>> /\ \E a \in {RE(0..2147483646)}, b \in {RE(0..2147483646)}, c \in {RE(-1..1)} : Q("(* " \o Str(c) \o " (+ (* " \o Str(a) \o " 4294967296) " \o Str(b) \o "))", "#t", "s")
ParseOne == MODE = "sim" /\ toks' = <<>> /\ \E v \in {RVal(3)} : Quotable(v) /\ T(v) # "x" /\ ~(T(v) = "y") /\ Q("(parse (str (list " \o Make(v, 1) \o ")))", Canon(VList(<<v>>)), "")
\* a whole text is evaluated datum by datum to its end
AllForms == MODE = "sim" /\ toks' = <<>> /\ \E ks \in {[i \in 1..RE(1..5) |-> RE(1..6)]} :
   Q("(define x 0) (define l '()) " \o JoinWith([i \in 1..Len(ks) |-> CASE ks[i] = 1 -> "()" [] ks[i] = 2 -> "'()" [] ks[i] = 3 -> "\"s\" ; c" [] ks[i] = 4 -> "x" [] OTHER -> "(set! x (+ x " \o Str(i) \o "))"], "\n") \o "\n(list x)",
     Paren(<<Str(LET RECURSIVE Sum(_) Sum(i) == IF i = 0 THEN 0 ELSE (IF ks[i] >= 5 THEN i ELSE 0) + Sum(i - 1) IN Sum(Len(ks)))>>), "a")
Next == AllForms \/ AddToken \/ Texts \/ RoundTrip \/ FrameTrip \/ FloatTrip \/ IntTrip \/ ParseOne
Spec == Init /\ [][Next]_vars
\* ---- the design: a datum's own text denotes it, however it is spaced
Denotes == MODE = "tokens" \/ \A i \in 1..Len(Lit) : Read(<<Lit[i]>>) = <<"ok", Lit[i][3], <<>> >>
View == toks
BoundedNext == TRUE
Bounded == TRUE
EmitEdge == EmitSteps("e", steps')
EmitPath == IF Len(steps') = DEPTH THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
