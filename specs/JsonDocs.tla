------------------------------ MODULE JsonDocs ------------------------------
(* JSON texts and the values they denote: the grammar over tokens, the          *)
(* conversion to frames and lists, and the ways back.                           *)
EXTENDS Values
CONSTANTS MODE,     \* "tokens": every sequence of tokens up to MAXLEN; "sim": random documents and values
          ALPHA, MAXLEN, DEPTH
VARIABLES toks, steps
vars == <<toks, steps>>
RE(S) == RandomElement(S)

\* ---- tokens: <<kind, text inside a Lisp string literal, value>>
P(t) == <<t, t, VNil>>
Atom(t, v) == <<"atom", t, v>>
JS(t, c) == <<"str", "\\\"" \o t \o "\\\"", VX("", "\"" \o c \o "\"")>>
Bad(t) == <<"bad", t, VNil>>
Nums == << Atom("1", VI("1")), Atom("0", VI("0")), Atom("-7", VI("-7")), Atom("2.5", VF("2.5")), Atom("-0.25", VF("-0.25")), Atom("1e3", VI("1000")), Atom("2.0", VI("2")), Atom("25e-1", VF("2.5")),
           Atom("4294967296", VI("4294967296")), Atom("9007199254740991", VI("9007199254740991")), Atom("-9007199254740992", VI("-9007199254740992")), Atom("0.1", VF("0.1")), Atom("1E2", VI("100")), Atom("-1.5e+1", VI("-15")), Atom("123.456", VF("123.456")), Atom("1e-7", VX("", "1e-07f")) >>
Strs == << JS("a", "a"), JS("", ""), JS("a b", "a b"), JS("\\\\n", "\\n"), JS("\\\\\\\"", "\\\""), JS("\\\\\\\\", "\\\\"), JS("\\\\/", "/"), JS("\\\\u0041", "A"), JS("x:", "x:"), JS("{}", "{}"), JS("null", "null"), JS("1", "1"), JS("<&>", "<&>"), JS("\\\\t\\\\r", "\\t\\r"), JS("a\\\\\\\"b\\\\\\\"", "a\\\"b\\\""), JS("'", "'"), JS("; c", "; c"), JS("//", "//") >>
Others == << Atom("true", VB("#t")), Atom("false", VB("#f")), Atom("null", VNil) >>
Wrong == << Bad("nul"), Bad("+1"), Bad("01"), Bad("1."), Bad(".5"), Bad("0x1"), Bad("'a'"), Bad("True"), Bad("1e"), Bad("a"), Bad("\\\"a"), Bad("\\\"\\\\q\\\""), Bad("\\\"\\\\u12\\\""), Bad("nan"), Bad("-"), Bad("()"), Bad("/**/"), Bad("1e999"), Bad("NaN"), Bad("#t"), Bad("\\\"a\nb\\\"") >>
AllLits == Nums \o Strs \o Others
Punct == {P(t) : t \in {"{", "}", "[", "]", ":", ","}}
Tokens == CASE ALPHA = "few" -> Punct \cup {Nums[1], Strs[1], Others[1]}
            [] ALPHA = "lits" -> Punct \cup {AllLits[i] : i \in 1..Len(AllLits)} \cup {Wrong[i] : i \in 1..Len(Wrong)}

\* ---- keys in ascending order of the slot names they become; no number is a key
Keys == << <<"", ":">>, <<"A", "A:">>, <<"a b", "a b:">>, <<"a", "a:">>, <<"a:", "a::">>, <<"b", "b:">>, <<"k1", "k1:">>, <<"null", "null:">>, <<"x:", "x::">> >>
KeyIndex(tok) == LET S == {i \in 1..Len(Keys) : tok[2] = "\\\"" \o Keys[i][1] \o "\\\""} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
\* an object: members <<key index, value>> in document order, the last of each key counts
ObjVal(ms) == VFrame(LET ks == SelectSeq([i \in 1..Len(Keys) |-> i], LAMBDA i : \E m \in 1..Len(ms) : ms[m][1] = i)
                     IN [j \in 1..Len(ks) |-> <<Keys[ks[j]][2], LET S == {m \in 1..Len(ms) : ms[m][1] = ks[j]} IN ms[CHOOSE m \in S : \A o \in S : o <= m][2]>>])

\* ---- the grammar: <<"ok", value, rest>>, <<"err">>, or <<"any">> for a document that is one but has keys outside the table
RECURSIVE Value(_), Members(_, _), Items(_, _)
Value(s) ==
  IF s = <<>> THEN <<"err">> ELSE
  LET k == s[1][1] r == Tail(s) IN
  CASE k \in {"atom", "str"} -> <<"ok", s[1][3], r>>
    [] k = "[" -> IF r # <<>> /\ r[1][1] = "]" THEN <<"ok", VNil, Tail(r)>> ELSE Items(r, <<>>)
    [] k = "{" -> IF r # <<>> /\ r[1][1] = "}" THEN <<"ok", VFrame(<<>>), Tail(r)>> ELSE Members(r, <<>>)
    [] OTHER -> <<"err">>
Items(s, vs) ==
  LET q == Value(s) IN
  IF q[1] = "err" THEN q
  ELSE IF q[3] = <<>> THEN <<"err">>
  ELSE IF q[3][1][1] = "]" THEN <<"ok", VList(Append(vs, q[2])), Tail(q[3])>>
  ELSE IF q[3][1][1] = "," THEN Items(Tail(q[3]), Append(vs, q[2]))
  ELSE <<"err">>
Members(s, ms) ==
  IF Len(s) < 3 THEN <<"err">>
  ELSE IF s[1][1] # "str" \/ s[2][1] # ":" THEN <<"err">>
  ELSE LET q == Value(SubSeq(s, 3, Len(s))) m == <<KeyIndex(s[1]), IF q[1] = "err" THEN VNil ELSE q[2]>> IN
    IF q[1] = "err" THEN q
    ELSE IF q[3] = <<>> THEN <<"err">>
    ELSE IF q[3][1][1] = "}" THEN <<"ok", IF \E i \in 1..Len(ms) : ms[i][1] = 0 THEN VObj("?") ELSE IF m[1] = 0 THEN VObj("?") ELSE ObjVal(Append(ms, m)), Tail(q[3])>>
    ELSE IF q[3][1][1] = "," THEN Members(Tail(q[3]), Append(ms, m))
    ELSE <<"err">>
RECURSIVE Open(_)
Open(v) == CASE T(v) = "o" -> TRUE [] T(v) = "c" -> Open(v[2]) \/ Open(v[3]) [] T(v) = "F" -> \E i \in 1..Len(v[2]) : Open(v[2][i][2]) [] OTHER -> FALSE
Meaning(s) == LET q == Value(s) IN IF q[1] = "err" THEN "!E" ELSE IF q[3] # <<>> THEN "!E" ELSE IF Open(q[2]) THEN "?V" ELSE Canon(q[2])

\* ---- texts
Gaps == <<"", " ", "\n", "\t", " \n  ", "\r">>
Wordy(t) == t[1] \in {"atom", "bad", "str"}
RECURSIVE Render(_, _)
Render(s, tight) == IF s = <<>> THEN "" ELSE s[1][2] \o (IF Len(s) > 1 /\ Wordy(s[1]) /\ Wordy(s[2]) THEN " " ELSE IF tight THEN "" ELSE Gaps[RE(1..6)]) \o Render(Tail(s), tight)
Lisp(text) == "(json->lisp \"" \o text \o "\")"
Back(text) == "(let ((t \"" \o text \o "\")) (list t (lisp->json (json->lisp t))))"
BackA(text) == "(let ((t \"" \o text \o "\")) (list t (valist->json (vjson->alist t))))"
HasNull(s) == \E i \in 1..Len(s) : s[i][2] = "null"
HasEmpty(s) == \E i \in 1..Len(s) : s[i][1] \in {"[", "{"} /\ i < Len(s) /\ s[i + 1][1] \in {"]", "}"}

Steps(s, tight) == LET t == Render(s, tight) m == Meaning(s) IN
  << <<Lisp(t), m>> >> \o (IF m = "!E" THEN <<>> ELSE IF HasNull(s) THEN <<>> ELSE << <<Back(t), "#t", "j">> >> \o (IF HasEmpty(s) THEN <<>> ELSE << <<BackA(t), "#t", "j">> >>))
Init == toks = <<>> /\ steps = <<>>
AddToken == /\ MODE = "tokens" /\ Len(toks) < MAXLEN
            /\ \E t \in Tokens : toks' = Append(toks, t) /\ steps' = Steps(toks', TRUE)

\* ---- random documents
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
RECURSIVE Between(_, _)
Between(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Between(Tail(ss), sep)
RNum(any) == LET a == RE(0..2147483646) b == RE(0..2) IN LET t == (IF RE(1..2) = 1 THEN "-" ELSE "") \o Str(a \div (CASE b = 0 -> 1 [] b = 1 -> 1000 [] b = 2 -> 100000000) + 1) IN Atom(t, VI(t))
Key(i) == <<"str", "\\\"" \o Keys[i][1] \o "\\\"", VNil>>
RECURSIVE RDoc(_)
RDoc(d) == LET k == IF d = 0 THEN RE(1..4) ELSE RE(1..10) IN
  CASE k = 1 -> <<AllLits[RE(1..Len(AllLits))]>>
    [] k = 2 -> <<Strs[RE(1..Len(Strs))]>>
    [] k = 3 -> <<RNum(0)>>
    [] k = 4 -> <<Nums[RE(1..Len(Nums))]>>
    [] k \in 5..7 -> LET n == RE(0..4) IN <<P("[")>> \o Between([i \in 1..n |-> RDoc(d - 1)], <<P(",")>>) \o <<P("]")>>
    [] OTHER -> LET n == RE(0..5) IN <<P("{")>> \o Between([i \in 1..n |-> <<Key(RE(1..Len(Keys))), P(":")>> \o RDoc(d - 1)], <<P(",")>>) \o <<P("}")>>
Damage(s) == LET i == RE(1..Len(s)) k == RE(1..4) IN
  CASE k = 1 -> SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
    [] k = 2 -> SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))
    [] k = 3 -> [s EXCEPT ![i] = P(RE({"{", "}", "[", "]", ":", ","}))]
    [] k = 4 -> [s EXCEPT ![i] = Wrong[RE(1..Len(Wrong))]]
Docs == /\ MODE = "sim" /\ toks' = <<>>
        /\ \E k \in {RE(1..5)} : \E s \in {RDoc(4)} : \E q \in {IF k = 5 THEN Damage(s) ELSE s} : steps' = steps \o Steps(q, k = 1)
Q(src, exp) == steps' = Append(steps, <<src, exp>>)
Sim == MODE = "sim" /\ toks' = <<>>
\* ---- values to documents and back
LKeys == <<"A:", "a:", "b:", "k1:", "z:">>
NoOpen(S) == S
LAtoms == {Nums[i][3] : i \in {1, 2, 3, 4, 5, 9, 10, 11, 12, 15}} \cup {VS("a"), VS(""), VS("a b"), VS("<&>"), VS("x:"), VB("#t"), VB("#f"), VX("\"q\\\"q\"", "\"q\\\"q\""), VX("\"b\\\\b\"", "\"b\\\\b\""), VX("\"x\ny\"", "\"x\\ny\""), VX("\"\\n\"", "\"\\n\"")}
RECURSIVE RLisp(_)
RLisp(d) == LET k == IF d = 0 THEN 1 ELSE RE(1..6) IN
  CASE k <= 2 -> RE(LAtoms)
    [] k \in 3..4 -> LET n == RE(1..4) IN VList([i \in 1..n |-> RLisp(d - 1)])
    [] OTHER -> LET ks == SelectSeq(LKeys, LAMBDA key : RE(1..2) = 1) IN VFrame([i \in 1..Len(ks) |-> <<ks[i], RLisp(d - 1)>>])
There == Sim /\ \E v \in {RLisp(4)}, y \in {RE(1..3)} : Q("(json->lisp (lisp->json " \o Make(v, y) \o "))", Canon(v))
\* symbols become strings, bytearrays lists of numbers, slots holding functions are left out
Lossy == Sim /\ \E v \in {RLisp(2)}, k \in {RE(1..5)}, y \in {RE(1..3)} : LET m == Make(v, y) c == Canon(v) IN
   CASE k = 1 -> Q("(json->lisp (lisp->json {a: 'sym b: " \o m \o "}))", "{a: \"sym\" b: " \o c \o "}")
     [] k = 2 -> Q("(json->lisp (lisp->json (list [1 255 0] " \o m \o ")))", "((1 255 0) " \o c \o ")")
     [] k = 3 -> Q("(json->lisp (lisp->json {a: (lambda () 1) b: " \o m \o "}))", "{b: " \o c \o "}")
     [] k = 4 -> Q("(json->lisp (lisp->json {a: car b: (list " \o m \o ") c: '()}))", "?|{b: (" \o c \o ") c: ()}||{a: \"\" b: (" \o c \o ") c: ()}")
     [] k = 5 -> Q("(let* ((v " \o m \o ") (b (str v)) (j (lisp->json v))) (list (string? j) (== b (str v))))", "(#t #t)")
\* an object as an alist: every member is found under its key
RECURSIVE RPlain(_)
RPlain(d) == LET k == IF d = 0 THEN 1 ELSE RE(1..3) IN
  CASE k = 1 -> <<(Nums \o Strs \o SubSeq(Others, 1, 2))[RE(1..Len(Nums) + Len(Strs) + 2)]>>
    [] OTHER -> LET n == RE(1..4) IN <<P("[")>> \o Between([i \in 1..n |-> RPlain(d - 1)], <<P(",")>>) \o <<P("]")>>
AlistGet == Sim /\ \E a \in {RPlain(2)}, b \in {RPlain(2)}, c \in {RPlain(1)}, k \in {RE(1..4)} :
  LET t == Render(<<P("{"), Key(4), P(":")>> \o a \o <<P(","), Key(6), P(":")>> \o b \o <<P(","), Key(7), P(":")>> \o c \o <<P("}")>>, FALSE) IN
  Q("(let ((al (vjson->alist \"" \o t \o "\"))) (list (cdr (assoc \"" \o Keys[<<4, 6, 7, 4>>[k]][1] \o "\" al)) (length al) (assoc \"zz\" al) (alist? al)))",
    "(" \o Canon(Value(<<a, b, c, a>>[k])[2]) \o " 3 () #t)")
AlistThere == Sim /\ \E v \in {RLisp(0)}, w \in {RLisp(0)} :
  Q("(json->lisp (valist->json (acons \"a\" " \o Make(v, 1) \o " (acons 'b " \o Make(VList(<<w, v>>), 2) \o " '()))))", "{a: " \o Canon(v) \o " b: " \o Canon(VList(<<w, v>>)) \o "}")
NotText == Sim /\ \E v \in {RLisp(2)} : T(v) \notin {"s", "x"} /\ Q("(json->lisp " \o Make(v, 1) \o ")", "!E")
\* ---- values of the host: <<description, value, is it omitted when empty, the value under the option "string">>
HI(k, t) == <<"(" \o k \o " \"" \o t \o "\")", VI(t), t = "0", VS(t)>>
HF(k, t, v) == <<"(" \o k \o " \"" \o t \o "\")", v, t = "0", VObj("?")>>
HS(k, t) == <<"(" \o k \o " \"" \o t \o "\")", VS(t), t = "", VX("", "\"\\\"" \o t \o "\\\"\"")>>
HB(t, v) == <<"(bool \"" \o t \o "\")", VB(v), v = "#f", VS(t)>>
HostAtoms == << HI("int", "5"), HI("int", "0"), HI("int", "-9007199254740993"), HI("int8", "-128"), HI("int8", "0"), HI("int16", "32767"), HI("int32", "-2147483648"), HI("int64", "9223372036854775807"), HI("int64", "-1"),
   HI("uint", "7"), HI("uint8", "255"), HI("uint8", "0"), HI("uint16", "65535"), HI("uint32", "4294967295"), HI("uint64", "9007199254740993"), HI("uint64", "0"), HI("named-int", "12"), HI("named-int", "0"),
   HF("float32", "0.25", VF("0.25")), HF("float32", "3", VI("3")), HF("float32", "0", VI("0")), HF("float64", "-2.5", VF("-2.5")), HF("float64", "10000000000", VI("10000000000")), HF("float64", "-4", VI("-4")), HF("float64", "0", VI("0")), HF("float64", "1e-7", VX("", "1e-07f")),
   HS("string", "a"), HS("string", ""), HS("string", "a b"), HS("string", "5"), HS("named-string", "n"), HS("named-string", ""), HB("true", "#t"), HB("false", "#f"), <<"(nil)", VNil, TRUE, VNil>>, <<"(nilptr)", VNil, TRUE, VNil>> >>
\* the fields of structures in ascending order of their slots: <<name, tag, slot, omitted when empty, as a string>>; no slot: not there
Fields == << <<"Dash", "-,", "-:", FALSE, FALSE>>, <<"Aa", "", "Aa:", FALSE, FALSE>>, <<"Bb", ",omitempty", "Bb:", TRUE, FALSE>>, <<"Cc", ",string", "Cc:", FALSE, TRUE>>, <<"Gone", "-", "", FALSE, FALSE>>, <<"Zz", "a", "a:", FALSE, FALSE>>,
   <<"Xx", "b,omitempty", "b:", TRUE, FALSE>>, <<"Uu", "c,string", "c:", FALSE, TRUE>>, <<"Qq", "d,omitempty,string", "d:", TRUE, TRUE>>, <<"Pp", "e f", "e f:", FALSE, FALSE>>, <<"Oo", "g,string,omitempty", "g:", TRUE, TRUE>>, <<"hidden", "h", "", FALSE, FALSE>>, <<"lower", "", "", FALSE, FALSE>>, <<"Yy", "y,other", "y:", FALSE, FALSE>> >>
Descs(hs) == JoinWith([i \in 1..Len(hs) |-> hs[i][1]], " ")
Vals(hs) == VList([i \in 1..Len(hs) |-> hs[i][2]])
Plain4(t, v, e) == <<t, v, e, v>>
Slots(fs) == LET here == SelectSeq(fs, LAMBDA f : f[1][3] # "" /\ ~(f[1][4] /\ f[2][3])) IN [i \in 1..Len(here) |-> <<here[i][1][3], IF here[i][1][5] THEN here[i][2][4] ELSE here[i][2][2]>>]
RECURSIVE RHost(_), RHosts(_, _)
\* drawn one after the other, so that each draw is made once
RHosts(n, d) == IF n = 0 THEN <<>> ELSE <<RHost(d)>> \o RHosts(n - 1, d)
RECURSIVE RInts(_, _), RMaps(_)
RInts(kind, n) == IF n = 0 THEN <<>> ELSE <<HI(kind, Str(RE(0..100)))>> \o RInts(kind, n - 1)
RMap(any) == LET ks == SelectSeq(<<"a", "b", "z">>, LAMBDA x : RE(1..2) = 1) IN LET vs == RHosts(Len(ks), 0) IN
   Plain4("(map " \o JoinWith([j \in 1..Len(ks) |-> "(\"" \o ks[j] \o "\" " \o vs[j][1] \o ")"], " ") \o ")", VFrame([j \in 1..Len(ks) |-> <<ks[j] \o ":", vs[j][2]>>]), FALSE)
RMaps(n) == IF n = 0 THEN <<>> ELSE <<RMap(0)>> \o RMaps(n - 1)
RHost(d) == LET k == IF d = 0 THEN 1 ELSE RE(1..9) IN
  CASE k = 1 -> HostAtoms[RE(1..Len(HostAtoms))]
    [] k = 2 -> LET i == RHost(d - 1) IN IF i[1] \in {"(nil)", "(nilptr)"} THEN i ELSE <<"(ptr " \o i[1] \o ")", i[2], i[3], i[4]>>
    [] k \in {3, 4} -> LET n == RE(0..4) IN LET hs == RHosts(n, d - 1) IN Plain4((IF k = 3 THEN "(slice " ELSE "(array ") \o Descs(hs) \o ")", Vals(hs), n = 0)
    [] k = 5 -> LET n == RE(1..4) kind == RE({"int", "int8", "uint8", "int64", "uint16", "named-int"}) IN LET hs == RInts(kind, n) IN Plain4("(typed " \o Descs(hs) \o ")", Vals(hs), FALSE)
    [] k = 6 -> LET n == RE(1..3) IN LET hs == RMaps(n) IN Plain4("(typed " \o Descs(hs) \o ")", Vals(hs), FALSE)
    [] k = 7 -> LET ks == SelectSeq(Keys, LAMBDA x : RE(1..3) = 1) IN LET vs == RHosts(Len(ks), d - 1) IN
                  Plain4("(map " \o JoinWith([j \in 1..Len(ks) |-> "(\"" \o ks[j][1] \o "\" " \o vs[j][1] \o ")"], " ") \o ")", VFrame([j \in 1..Len(ks) |-> <<ks[j][2], vs[j][2]>>]), FALSE)
    [] OTHER -> LET sel == SelectSeq(Fields, LAMBDA x : RE(1..3) = 1) IN LET hs == RHosts(Len(sel), d - 1) IN LET fs == [j \in 1..Len(sel) |-> <<sel[j], hs[j]>>] IN
                  Plain4("(struct " \o JoinWith([j \in 1..Len(fs) |-> "(\"" \o fs[j][1][1] \o "\" \"" \o fs[j][1][2] \o "\" " \o fs[j][2][1] \o ")"], " ") \o ")", VFrame(Slots(fs)), FALSE)
Host == Sim /\ \E h \in {RHost(4)} : Q("(vhost '" \o h[1] \o ")", IF Open(h[2]) THEN "?V" ELSE Canon(h[2]))
\* a value from the host is a value of the program: it can be changed, and the way back is that of any other
HostField == Sim /\ \E a \in {RHost(2)}, b \in {RHost(1)} : ~Open(a[2]) /\ ~Open(b[2]) /\
   Q("(let ((f (vhost '(struct (\"Aa\" \"k\" " \o a[1] \o ") (\"Bb\" \"\" (int \"1\")))))) (Bb:! f (vhost '" \o b[1] \o ")) (list (k: f) (Bb: f) (k:? f) (Aa:? f)))", "(" \o Canon(a[2]) \o " " \o Canon(b[2]) \o " #t #f)")
Next == Host \/ HostField \/ AddToken \/ Docs \/ There \/ Lossy \/ AlistGet \/ AlistThere \/ NotText
Spec == Init /\ [][Next]_vars
\* ---- the design: every literal is a document of its own, and none of the wrong ones is
Denotes == /\ \A i \in 1..Len(AllLits) : Value(<<AllLits[i]>>) = <<"ok", AllLits[i][3], <<>> >>
           /\ \A i \in 1..Len(Wrong) : Value(<<Wrong[i]>>) = <<"err">>
View == toks
BoundedNext == TRUE
Bounded == TRUE
EmitEdge == IF steps' = <<>> THEN TRUE ELSE EmitSteps("e", steps')
EmitPath == IF Len(steps') >= DEPTH THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
