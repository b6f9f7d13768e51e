------------------------------ MODULE TextEval ------------------------------
(* Evaluating a text: its forms are read and evaluated one after another, each   *)
(* before the next one is read, up to the end of the text or the first form that  *)
(* is malformed or an error; what the forms before it did stays done.  The same   *)
(* holds for a file, for a file that is loaded by a form of another one, and for   *)
(* texts evaluated in the global scope or in an environment.                       *)
EXTENDS Emit, Integers, FiniteSets
CONSTANTS MAXLEN, RANDOM, DEPTH, ITEMS   \* ITEMS: "few" or "all"
VARIABLES t,       \* the text: a sequence of items
          st,      \* what is bound: g in the global scope, e in the environment (0: not bound)
          steps
vars == <<t, st, steps>>
RE(S) == RandomElement(S)
Few == {"probe", "def", "set", "ref", "err", "nil", "cmt", "let", "load", "open"}
More == Few \cup {"unb", "str", "loadbad", "loadno", "byte", "dot", "fn", "call", "begin", "quote", "num", "if", "openq", "opens", "openb", "close"}
Items == IF ITEMS = "few" THEN Few ELSE More
\* items that swallow what follows
Last == {"open", "openq", "opens", "openb"}
Src(i) == CASE i = "probe" -> "(vprobe 1)" [] i = "def" -> "(define vgx 10)" [] i = "set" -> "(set! vgx (+ vgx 1))" [] i = "ref" -> "vgx"
            [] i = "err" -> "(begin (vprobe 2) (error \\\"e\\\") (vprobe 3))" [] i = "nil" -> "()" [] i = "cmt" -> "; (vprobe 9) (\\n"
            [] i = "let" -> "(let ((vgx 5)) (vprobe 4) (set! vgx 6) (vprobe vgx))" [] i = "load" -> "(load (vfn 1))" [] i = "loadbad" -> "(load (vfn 2))" [] i = "loadno" -> "(load (vfn 3))"
            [] i = "unb" -> "(no-such-function vgx)" [] i = "str" -> "\\\"a (b \\\\\\\" ; c\\\"" [] i = "byte" -> "[1 300]" [] i = "dot" -> "(1 . )" [] i = "fn" -> "(define (vgf) (vprobe 5) (set! vgx (+ vgx 1)))"
            [] i = "call" -> "(vgf)" [] i = "begin" -> "(begin (vprobe 6) (define vgx 20) (vprobe 7))" [] i = "quote" -> "'(vprobe 8)" [] i = "num" -> "42" [] i = "if" -> "(if (vprobe #f) (vprobe 1) (vprobe 0))"
            [] i = "open" -> "(vprobe 9" [] i = "openq" -> "'" [] i = "opens" -> "\\\"abc (vprobe 9)" [] i = "openb" -> "{a: 1" [] i = "close" -> "[1 (vprobe 9))"
Bad(i) == i \in Last \cup {"byte", "dot", "close"}
Datum(i) == CASE i = "err" -> "(begin (vprobe 2) (error \"e\") (vprobe 3))" [] i = "str" -> "\"a (b \\\" ; c\"" [] i = "quote" -> "(quote (vprobe 8))" [] OTHER -> Src(i)
Text(s) == JoinWith([i \in 1..Len(s) |-> Src(s[i])], " ")
\* ---- evaluation: w is [g, gf, e, ef, log, val, err]
\* where: "g" or "e"
X(w, where) == IF where = "e" /\ w.e # 0 THEN w.e ELSE w.g
SetX(w, where, v) == IF where = "e" /\ w.e # 0 THEN [w EXCEPT !.e = v] ELSE [w EXCEPT !.g = v]
Ok(w, v) == [w EXCEPT !.val = v]
Err(w) == [w EXCEPT !.err = TRUE]
Log(w, k) == [w EXCEPT !.log = @ \o <<k>>]
Inc(w, where) == IF X(w, where) = 0 THEN Err(w) ELSE Ok(SetX(w, where, X(w, where) + 1), Str(X(w, where) + 1))
DefX(w, where, v) == IF where = "e" THEN [w EXCEPT !.e = v] ELSE [w EXCEPT !.g = v]
\* the function changes the binding that its own scope sees; which scope that is is remembered
DefF(w, where) == IF where = "e" THEN [w EXCEPT !.ef = TRUE] ELSE [w EXCEPT !.gf = TRUE]
One(w, i, where) ==
  CASE i = "probe" -> Ok(Log(w, "1"), "1")
    [] i = "def" -> Ok(DefX(w, where, 10), "10")
    [] i = "set" -> Inc(w, where)
    [] i = "ref" -> Ok(w, IF X(w, where) = 0 THEN "()" ELSE Str(X(w, where)))
    [] i = "err" -> Err(Log(w, "2"))
    [] i = "nil" -> Ok(w, "()")
    [] i = "cmt" -> w
    [] i = "let" -> Ok(Log(Log(w, "4"), "6"), "6")
    [] i = "load" -> IF w.g = 0 THEN Err(Log(w, "20")) ELSE Ok(Log(Log([w EXCEPT !.g = @ + 100], "20"), "21"), "21")
    [] i = "loadbad" -> Err([Log(w, "22") EXCEPT !.g = 50])
    [] i = "loadno" -> Err(w)
    [] i = "unb" -> Err(w)
    [] i = "str" -> Ok(w, "\"a (b \\\" ; c\"")
    [] i = "fn" -> Ok(DefF(w, where), "<fn>")
    [] i = "call" -> IF where = "e" /\ w.ef THEN Inc(Log(w, "5"), "e") ELSE IF w.gf THEN Inc(Log(w, "5"), "g") ELSE Err(w)
    [] i = "begin" -> Ok(DefX(Log(Log(w, "6"), "7"), where, 20), "7")
    [] i = "quote" -> Ok(w, "(vprobe 8)")
    [] i = "num" -> Ok(w, "42")
    [] i = "if" -> Ok(Log(Log(w, "#f"), "0"), "0")
    [] OTHER -> Err(w)
RECURSIVE All(_, _, _)
All(w, s, where) == IF s = <<>> \/ w.err THEN w ELSE All(One(w, s[1], where), Tail(s), where)
Forms(s) == SelectSeq(s, LAMBDA i : i # "cmt")
Start(v) == [g |-> v.g, gf |-> v.gf, e |-> v.e, ef |-> v.ef, log |-> <<>>, val |-> "()", err |-> FALSE]
\* ---- the steps of one evaluation, and the state it leaves
Keep(w) == [g |-> w.g, gf |-> w.gf, e |-> w.e, ef |-> w.ef]
Result(w) == IF w.err THEN "!E" ELSE w.val
Quoted(s) == "\"" \o Text(s) \o "\""
Shows(w) == << <<"(vlog)", Paren(w.log)>>, <<"vgx", IF w.g = 0 THEN "()" ELSE Str(w.g), "g">>, <<"(eval 'vgx ve)", IF w.e # 0 THEN Str(w.e) ELSE IF w.g = 0 THEN "()" ELSE Str(w.g)>> >>
Went(kind, s, where) ==
  IF kind \in {"all", "file"} THEN All(Start(st), s, where)
  ELSE IF Forms(s) = <<>> THEN Start(st) ELSE One(Start(st), Forms(s)[1], where)
EvalSteps(kind, s, where) == LET w == Went(kind, s, where) IN << <<"(vtext \"" \o kind \o "\" " \o Quoted(s) \o (IF where = "e" THEN " ve)" ELSE ")"), Result(w)>> >> \o Shows(w)
\* ---- reading only: nothing happens
FirstBad(s) == IF \E i \in 1..Len(s) : Bad(s[i]) THEN (CHOOSE i \in 1..Len(s) : Bad(s[i]) /\ \A j \in 1..(i - 1) : ~Bad(s[j])) ELSE 0
Before(s) == IF FirstBad(s) = 0 THEN s ELSE SubSeq(s, 1, FirstBad(s) - 1)
ReadSteps(s) == LET f == Forms(s) b == Forms(Before(s)) IN
  << <<"(vtext \"read\" " \o Quoted(s) \o ")", IF f = <<>> THEN "()" ELSE IF Bad(f[1]) THEN "!E" ELSE Datum(f[1])>>,
     <<"(vtext \"read-all\" " \o Quoted(s) \o ")", Paren(<<Bool(FirstBad(s) # 0)>> \o [i \in 1..Len(b) |-> Datum(b[i])])>>, <<"(vlog)", "()">> >>
\* ---- setting up: nothing is bound; ve is an environment below the global scope
Prepare == << <<"(begin (define vgx ()) (define vgf ()) 1)", "1", "g">>,
              <<"(begin (define ve (make-top-level-environment '(vother) '(1))) (vclear) (vput (vfn 1) \"(vprobe 20) ; first \\n (set! vgx (+ vgx 100)) (vprobe 21)\") (vput (vfn 2) \"(vprobe 22) (define vgx 50) [1 (vprobe 23)\") 1)", "1">> >>
Clean == << <<"(vclear)", "()">> >>
Nothing == [g |-> 0, gf |-> FALSE, e |-> 0, ef |-> FALSE]
\* a name with the value () counts as bound for set! and bound?: it is unbound here in the sense that it is not a number
Init == t = <<>> /\ st = Nothing /\ steps = IF RANDOM THEN Prepare ELSE <<>>
AfterBad(s) == IF s = <<>> THEN FALSE ELSE s[Len(s)] \in Last
Grow == ~RANDOM /\ \E i \in Items : ~AfterBad(t) /\ Len(t) < MAXLEN /\ t' = Append(t, i) /\ UNCHANGED st
           /\ \E kind \in {"all", "file", "one", "read"}, where \in {"g", "e"}, v \in {Nothing, [Nothing EXCEPT !.g = 7, !.gf = TRUE]} :
              /\ (kind = "read" => where = "g" /\ v = Nothing)
              /\ steps' = Prepare \o (IF v = Nothing THEN <<>> ELSE << <<"(begin (define vgx 7) (define (vgf) (vprobe 5) (set! vgx (+ vgx 1))) 1)", "1", "g">> >>)
                          \o (IF kind = "read" THEN ReadSteps(t') ELSE
                              LET w == IF kind \in {"all", "file"} THEN All(Start(v), t', where) ELSE IF Forms(t') = <<>> THEN Start(v) ELSE One(Start(v), Forms(t')[1], where) IN
                              << <<"(vtext \"" \o kind \o "\" " \o Quoted(t') \o (IF where = "e" THEN " ve)" ELSE ")"), Result(w)>> >> \o Shows(w)) \o Clean
RECURSIVE RText(_)
RText(n) == IF n = 0 THEN <<>> ELSE LET i == RE(Items \ (IF n > 1 THEN Last ELSE {})) IN <<i>> \o RText(n - 1)
\* half of the texts have no error in them
Fine == Items \ (Last \cup {"err", "loadbad", "loadno", "byte", "dot", "close", "unb"})
RECURSIVE FText(_)
FText(n) == IF n = 0 THEN <<>> ELSE LET i == RE(Fine) IN <<i>> \o FText(n - 1)
RandomText == RANDOM /\ \E n \in {RE(0..MAXLEN)}, fine \in {RE(1..2)} : \E s \in {IF fine = 1 THEN FText(n) ELSE RText(n)}, kind \in {RE({"all", "file", "all", "one", "read"})}, where \in {RE({"g", "e"})} :
   t' = s /\ IF kind = "read" THEN st' = st /\ steps' = steps \o ReadSteps(s)
             ELSE st' = Keep(Went(kind, s, where)) /\ steps' = steps \o EvalSteps(kind, s, where)
Next == Grow \/ RandomText
Spec == Init /\ [][Next]_vars
View == <<t, st>>
Bounded == TRUE
BoundedNext == TRUE
\* ---- the design: a text does what its parts do one after another
Splits == LET w == All(Start(st), t, "e") IN \A k \in 0..Len(t) : All(All(Start(st), SubSeq(t, 1, k), "e"), SubSeq(t, k + 1, Len(t)), "e") = w
EmitEdge == EmitSteps("e", steps')
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN EmitSteps("p", steps' \o Clean) ELSE TRUE
=============================================================================
