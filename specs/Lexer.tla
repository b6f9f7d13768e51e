-------------------------------- MODULE Lexer --------------------------------
(* From characters to tokens: where one token of a text ends and the next one   *)
(* begins, what it denotes, and so (with the grammar of Reader) what the text   *)
(* denotes. Texts are sequences of characters, every one up to MAXLEN over an   *)
(* alphabet, and long random ones.                                              *)
EXTENDS Values, FiniteSets
CONSTANTS ALPHA, MAXLEN, DEPTH, RANDOM
VARIABLES text, steps
vars == <<text, steps>>
RE(S) == RandomElement(S)
R == INSTANCE Reader WITH MODE <- "", ALPHA <- "", MAXLEN <- 0, DEPTH <- 0, toks <- steps, steps <- steps
Digit == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |-> CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
Digits == DOMAIN Digit
Hex == Digits \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
HexVal(c) == IF c \in Digits THEN Digit[c] ELSE CASE c \in {"a", "A"} -> 10 [] c \in {"b", "B"} -> 11 [] c \in {"c", "C"} -> 12 [] c \in {"d", "D"} -> 13 [] c \in {"e", "E"} -> 14 [] OTHER -> 15
Space == {" ", "\n", "\t", "\r"}
Special == {"(", ")", ";", "\"", "'", "`", "|", "[", "]", "{", "}", "#", ","}
SymChar(c) == c \notin Space /\ c \notin Special
First(s) == IF s = <<>> THEN "" ELSE s[1]
After(s) == IF s = <<>> THEN <<>> ELSE Tail(s)
\* the longest beginning of s all of whose characters are in S
RECURSIVE Run(_, _)
Run(s, S) == IF s # <<>> /\ s[1] \in S THEN <<s[1]>> \o Run(Tail(s), S) ELSE <<>>
RECURSIVE SymRun(_)
SymRun(s) == IF s # <<>> /\ SymChar(s[1]) THEN <<s[1]>> \o SymRun(Tail(s)) ELSE <<>>
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Cat(s) == JoinWith(s, "")
RECURSIVE NoLeading(_), NoTrailing(_), Value(_, _)
NoLeading(s) == IF Len(s) > 1 /\ s[1] = "0" THEN NoLeading(Tail(s)) ELSE s
NoTrailing(s) == IF s # <<>> /\ s[Len(s)] = "0" THEN NoTrailing(SubSeq(s, 1, Len(s) - 1)) ELSE s
Value(s, base) == IF s = <<>> THEN 0 ELSE Value(SubSeq(s, 1, Len(s) - 1), base) * base + HexVal(s[Len(s)])
Open == <<"any", "", VNil>>
Wrong == <<"bad", "", VNil>>
Atom(v) == <<"atom", "", v>>
Br(t) == <<t, t, VNil>>
\* a number must not be run together with what could be a symbol
Ends(s) == s = <<>> \/ ~SymChar(s[1])
Whole(neg, ds) == LET d == NoLeading(ds) IN IF Len(d) > 18 THEN Open ELSE Atom(VI((IF neg /\ d # <<"0">> THEN "-" ELSE "") \o Cat(d)))
Real(neg, ds, fs) == LET i == NoLeading(ds) f == NoTrailing(fs) IN
   IF Len(i) + Len(f) > 6 \/ (neg /\ i = <<"0">> /\ f = <<>>) THEN Open
   ELSE LET t == (IF neg THEN "-" ELSE "") \o Cat(i) \o (IF f = <<>> THEN "" ELSE "." \o Cat(f)) IN
        IF i = <<"0">> /\ Len(f) > 3 /\ SubSeq(f, 1, 3) = <<"0", "0", "0">> THEN Open ELSE Atom(VX(t, t \o "f"))
\* how a character of a string is shown
Shown(c) == CASE c = "\n" -> "\\n" [] c = "\"" -> "\\\"" [] c = "\\" -> "\\\\" [] c = "\t" -> "\\t" [] c = "\r" -> "\\r" [] OTHER -> c
RECURSIVE Str1(_, _)
\* the rest of a string: <<ended, shown, what follows>>
Str1(s, acc) ==
  CASE s = <<>> -> <<FALSE, acc, s>>
    [] s[1] = "\"" -> <<TRUE, acc, Tail(s)>>
    [] s[1] = "\\" -> IF Len(s) = 1 THEN <<FALSE, acc, <<>> >> ELSE Str1(Drop(s, 2), acc \o (IF s[2] = "n" THEN "\\n" ELSE Shown(s[2])))
    [] OTHER -> Str1(Tail(s), acc \o Shown(s[1]))
RECURSIVE Lex(_), Comment(_)
Comment(s) == IF s = <<>> \/ s[1] = "\n" THEN s ELSE Comment(Tail(s))
Number(neg, s) == LET i == Run(s, Digits) r == Drop(s, Len(i)) IN
   IF First(r) = "." THEN LET f == Run(After(r), Digits) q == Drop(r, 1 + Len(f)) IN IF Ends(q) THEN <<Real(neg, i, f)>> \o Lex(q) ELSE <<Open>>
   ELSE IF Ends(r) THEN <<Whole(neg, i)>> \o Lex(r) ELSE <<Open>>
Based(s, S, base) == LET d == Run(s, S) r == Drop(s, Len(d)) IN
   IF d = <<>> THEN <<Wrong>> ELSE IF ~Ends(r) \/ Len(NoLeading(d)) > (IF base = 16 THEN 7 ELSE 30) THEN <<Open>> ELSE <<Atom(VI(Str(Value(NoLeading(d), base))))>> \o Lex(r)
Lex(s) ==
  IF s = <<>> THEN <<>> ELSE
  LET c == s[1] r == Tail(s) IN
  CASE c \in Space -> Lex(r)
    [] c = ";" -> Lex(Comment(r))
    [] c = "0" /\ First(r) = "x" -> Based(Tail(r), Hex, 16)
    [] c \in Digits -> Number(FALSE, s)
    [] c = "-" /\ First(r) \in Digits -> Number(TRUE, r)
    [] c = "\"" -> LET q == Str1(r, "") IN IF q[1] THEN <<Atom(VX("", "\"" \o q[2] \o "\""))>> \o Lex(q[3]) ELSE <<Wrong>>
    [] c \in {"'", "`", "(", ")", "[", "]", "{", "}"} -> <<Br(c)>> \o Lex(r)
    [] c = "," -> IF First(r) = "@" THEN <<Br(",@")>> \o Lex(Tail(r)) ELSE <<Br(",")>> \o Lex(r)
    [] c = "." /\ First(r) \in Space -> <<Br(".")>> \o Lex(r)
    [] c = "." /\ Ends(r) -> <<Open>>
    [] SymChar(c) -> LET y == SymRun(s) IN <<Atom(VY(Cat(y)))>> \o Lex(Drop(s, Len(y)))
    [] c = "#" -> IF First(r) \in {"t", "f"} THEN (IF Ends(Tail(r)) THEN <<Atom(VB("#" \o First(r)))>> \o Lex(Tail(r)) ELSE <<Open>>)
                  ELSE IF First(r) = "x" THEN Based(Tail(r), Hex, 16)
                  ELSE IF First(r) = "b" THEN Based(Tail(r), {"0", "1"}, 2) ELSE <<Wrong>>
    [] OTHER -> <<Wrong>>
Denotes(s) == R!ReadAll(Lex(s), <<>>)
\* ---- alphabets
Alphabet == CASE ALPHA = "num" -> <<"1", "0", "-", ".", " ", "(", ")", "a">>
              [] ALPHA = "str" -> <<"\"", "\\", "n", "\n", ";", " ", "a">>
              [] ALPHA = "hash" -> <<"#", "x", "b", "t", "f", "0", "1", "a", " ", "'">>
              [] ALPHA = "mix" -> <<"a", "1", "(", ")", "'", ",", "@", "`", ".", " ", "\"", ";", "\n", "[", "]", "-", ":">>
              [] OTHER -> <<"a", "1", "0", "9", "-", ".", ":", "\"", "\\", ";", "(", ")", "[", "]", "{", "}", "#", "x", "t", "f", "b", " ", "\n", "\t", "'", "`", ",", "@", "!", "+", "?", "|", "Z", "~", "/">>
Q(cs) == << <<Cat(cs), Denotes(cs), "p">> >>
Init == text = <<>> /\ steps = <<>>
Grow == ~RANDOM /\ Len(text) < MAXLEN /\ \E c \in 1..Len(Alphabet) : text' = Append(text, Alphabet[c]) /\ steps' = Q(text')
\* words of several characters make long texts that mean something
Words == <<"(", ")", " ", "'", "(a ", "12", "-3.5", "\"s\"", "\"", "\\", "; c", "\n", ". ", " . ", "#t", "#xff", "[1 2]", "{a: 1}", "foo", "a-b", ",@", "`(", ",", "-.", "->", "0x1F", "#b10", "((", "))", "x:", "\"a\\\"", "\\n", "...", "1.", ")(", "'()", " ) ", "-", "\t", "\r\n", "+5">>
RECURSIVE Chars(_)
Chars(w) == CASE w = "(a " -> <<"(", "a", " ">> [] w = "12" -> <<"1", "2">> [] w = "-3.5" -> <<"-", "3", ".", "5">> [] w = "\"s\"" -> <<"\"", "s", "\"">> [] w = "; c" -> <<";", " ", "c">> [] w = ". " -> <<".", " ">> [] w = " . " -> <<" ", ".", " ">> [] w = "#t" -> <<"#", "t">> [] w = "#xff" -> <<"#", "x", "f", "f">>
             [] w = "[1 2]" -> <<"[", "1", " ", "2", "]">> [] w = "{a: 1}" -> <<"{", "a", ":", " ", "1", "}">> [] w = "foo" -> <<"f", "o", "o">> [] w = "a-b" -> <<"a", "-", "b">> [] w = ",@" -> <<",", "@">> [] w = "`(" -> <<"`", "(">> [] w = "-." -> <<"-", ".">> [] w = "->" -> <<"-", ">">> [] w = "0x1F" -> <<"0", "x", "1", "F">>
             [] w = "#b10" -> <<"#", "b", "1", "0">> [] w = "((" -> <<"(", "(">> [] w = "))" -> <<")", ")">> [] w = "x:" -> <<"x", ":">> [] w = "\"a\\\"" -> <<"\"", "a", "\\", "\"">> [] w = "\\n" -> <<"\\", "n">> [] w = "..." -> <<".", ".", ".">> [] w = "1." -> <<"1", ".">> [] w = ")(" -> <<")", "(">> [] w = "'()" -> <<"'", "(", ")">>
             [] w = " ) " -> <<" ", ")", " ">> [] w = "\r\n" -> <<"\r", "\n">> [] w = "+5" -> <<"+", "5">> [] OTHER -> <<w>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Random == RANDOM /\ text' = <<>> /\ \E k \in {RE(1..3)} : \E cs \in {IF k = 1 THEN [i \in 1..RE(1..9) |-> Alphabet[RE(1..Len(Alphabet))]] ELSE IF k = 2 THEN Flat([i \in 1..RE(2..12) |-> Chars(Words[RE(1..Len(Words))])])
                                                                   ELSE <<"(">> \o Flat([i \in 1..RE(2..8) |-> Chars(Words[RE(4..Len(Words))]) \o <<" ">>]) \o <<")">>} : steps' = steps \o Q(cs)
Next == Grow \/ Random
Spec == Init /\ [][Next]_vars
\* ---- the design: space between the tokens of a text does not matter; what follows a newline is read as by itself
Twice(s) == Flat([i \in 1..Len(s) |-> IF s[i] \in Space THEN <<s[i], " ">> ELSE <<s[i]>>])
Spacing == (\A i \in 1..Len(text) : text[i] \notin {"\"", ";"}) => Lex(Twice(text)) = Lex(text) /\ Lex(text \o <<" ">>) \in {Lex(text), Lex(text \o <<"\n">>)}
Lines == \A i \in 1..Len(text) : (text[i] = "\n" /\ \A j \in 1..Len(text) : text[j] # "\"") => (LET a == Lex(SubSeq(text, 1, i)) IN a # <<>> /\ a[Len(a)][1] \in {"any", "bad"}) \/ Lex(text) = Lex(SubSeq(text, 1, i)) \o Lex(Drop(text, i))
View == text
Bounded == TRUE
BoundedNext == TRUE
EmitEdge == EmitSteps("e", steps')
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
