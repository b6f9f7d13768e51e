------------------------------ MODULE FrameSeq ------------------------------
(* Frames as one process sees them: own slots, parent slots (any slot whose     *)
(* name ends in a star) in arbitrary, also cyclic, graphs, and slot functions.   *)
(* Lookup order between several parents is unspecified: a read then allows the   *)
(* value of each, and a call is only made where they agree.                      *)
EXTENDS Emit, FiniteSets

CONSTANTS NF, DATA, METH, PAR, VALS, KINDS, PVALS, DEPTH, MISUSE,
          ANYINIT,   \* start from every state ("all"), every state without parent cycles ("acyclic") or from a random one ("random")
          FORMS      \* the ways of writing an operation that are used
VARIABLES own,     \* frame -> slot -> "none" or a value: "1", "()", a function "Mk", a frame <<j>> (tagged "F1")
          lex,     \* the variable a of the program
          steps
vars == <<own, lex, steps>>
F == 1..NF
Slots == DATA \cup METH \cup PAR
V(f) == "f" \o Str(f)
FName(f) == "F" \o Str(f)
FrameNames == {FName(f) : f \in F}
FOf(v) == CHOOSE f \in F : FName(f) = v
AllKinds == {"get", "set", "selfget", "call", "sup", "sugar", "send", "param", "clos", "setself", "args", "def", "asup", "inner", "fnslot", "letset", "cloneself", "other", "sup1", "sup2", "supn"}

Src(v) ==
  CASE v = "Mget"     -> "(lambda () a)"
    [] v = "Mset"     -> "(lambda (v) (set! a v))"
    [] v = "Mselfget" -> "(lambda () (get-slot self a:))"
    [] v = "Mcall"    -> "(lambda () (list 'c (n)))"
    [] v = "Msup"     -> "(lambda () (list 's (send-super m:)))"
    [] v = "Msugar"   -> "(lambda () (list 't (n:^)))"
    [] v = "Msend"    -> "(lambda () (list 'x (send self n:)))"
    [] v = "Mparam"   -> "(lambda (a) (let ((k 0)) (list a (set! a 9) a)))"
    [] v = "Mclos"    -> "(lambda () (map (lambda (i) (list i a)) '(1 2)))"
    [] v = "Msetself" -> "(lambda () (b:! self 7))"
    [] v = "Margs"    -> "(lambda (x . y) (list x a y))"
    [] v = "Mdef"     -> "(lambda () (define a 5) (list a (has-slot? self a:)))"
    [] v = "Masup"    -> "(lambda () (list 'u (apply-slot-super m: '())))"
    [] v = "Msup1"    -> "(lambda (v) (list 's1 (m:^ v)))"
    [] v = "Msup2"    -> "(lambda (v) (list 's2 (send-super m: v 'q)))"
    [] v = "Msupn"    -> "(lambda (v . r) (list 'un (apply-slot-super m: v r)))"
    [] v = "Minner"   -> "(lambda () (let* ((a 3) (g (lambda (z) (list z a (send self n:))))) (g 4)))"
    [] v = "Mfnslot"  -> "(lambda () (list 'f (apply n '())))"
    [] v = "Mletset"  -> "(lambda (v) (let ((w v)) (set! b w) (list w b)))"
    [] v = "Mcloneself" -> "(lambda () (let ((c (clone self))) (set-slot! c a: 6) (list (get-slot c a:) (get-slot-or-nil self a:))))"
    [] v = "Mother"   -> "(lambda () (list 'o (m:> f1)))"
    [] v \in FrameNames -> V(FOf(v))
    [] v = "()"       -> "'()"
    [] OTHER          -> v
IsFn(v) == v \in {"M" \o k : k \in AllKinds}
Canon(v) == IF IsFn(v) THEN "<fn>" ELSE IF v \in FrameNames THEN "<frame>" ELSE v
NeedArgs(v) == IF v \in {"Mset", "Mparam", "Mletset", "Msup1", "Msup2"} THEN 1 ELSE 0

\* ---- lookup: the possible <<value, holder>> pairs
ParentsOf(o, f) == {FOf(o[f][p]) : p \in {q \in PAR : o[f][q] \in FrameNames}}
RECURSIVE Find(_, _, _, _)
Find(o, todo, seen, s) ==
  IF todo \subseteq seen THEN {}
  ELSE LET f == CHOOSE x \in todo \ seen : TRUE
       IN IF o[f][s] # "none" THEN {<<o[f][s], f>>} \cup Find(o, todo, seen \cup {f}, s)
          ELSE Find(o, todo \cup ParentsOf(o, f), seen \cup {f}, s)
Cands(o, f, s) == Find(o, {f}, {}, s)
SuperCands(o, h, s) == UNION {Cands(o, p, s) : p \in ParentsOf(o, h)}
Has(o, f, s) == Cands(o, f, s) # {}
Values(o, f, s) == {c[1] : c \in Cands(o, f, s)}

\* ---- running a slot function for receiver r, found in holder h
\* result: [t |-> "ok"/"er"/"skip", v, o, l]
Res(t, v, o, l) == [t |-> t, v |-> v, o |-> o, l |-> l]
Lists(ss) == Paren(ss)
Slot(o, r, s, l) ==   \* a variable reference to a slot or else to the program's variable
  LET vs == IF s \in Slots THEN Values(o, r, s) ELSE {} IN
  IF Cardinality(vs) > 1 THEN Res("skip", "", o, l)
  ELSE IF vs = {} THEN (IF s = "a:" THEN Res("ok", l, o, l) ELSE Res("ok", "()", o, l))
  ELSE Res("ok", CHOOSE v \in vs : TRUE, o, l)
Opt(o, r, s) == IF s \in Slots THEN Cands(o, r, s) ELSE {}
RECURSIVE Exec(_, _, _, _, _, _, _), CallC(_, _, _, _, _, _), Bare(_, _, _, _)
Wrap(x, tag) == IF x.t = "ok" THEN [x EXCEPT !.v = Lists(<<tag, x.v>>)] ELSE x
\* call the function among these candidates
CallC(o, l, r, cs, args, d) ==
  IF Cardinality(cs) > 1 THEN Res("skip", "", o, l)
  ELSE IF cs = {} THEN Res("er", "", o, l)
  ELSE LET c == CHOOSE c \in cs : TRUE IN IF ~IsFn(c[1]) THEN Res("er", "", o, l) ELSE Exec(o, l, r, c[2], c[1], args, d - 1)
\* (n) by name alone: a slot that is no function does not hide the program's (there is none)
Bare(o, l, r, d) == CallC(o, l, r, Opt(o, r, "n:"), <<>>, d)
Exec(o, l, r, h, fn, args, d) ==
  IF d = 0 THEN Res("skip", "", o, l)
  ELSE IF (fn \in {"Margs", "Msupn"} /\ args = <<>>) \/ (fn \notin {"Margs", "Msupn"} /\ Len(args) # NeedArgs(fn)) THEN Res("er", "", o, l)
  ELSE CASE fn = "Mget"  -> LET x == Slot(o, r, "a:", l) IN [x EXCEPT !.v = Canon(x.v)]
    [] fn = "Mset" ->
         LET cs == Opt(o, r, "a:") IN
         IF cs = {} THEN Res("ok", args[1], o, args[1]) ELSE Res("ok", args[1], [o EXCEPT ![r]["a:"] = args[1]], l)
    [] fn = "Mselfget" ->
         LET vs == {c[1] : c \in Opt(o, r, "a:")} IN
         IF Cardinality(vs) > 1 THEN Res("skip", "", o, l) ELSE IF vs = {} THEN Res("er", "", o, l) ELSE Res("ok", CHOOSE v \in vs : TRUE, o, l)
    [] fn = "Mcall" -> Wrap(Bare(o, l, r, d), "c")
    [] fn = "Msup" -> Wrap(CallC(o, l, r, SuperCands(o, h, "m:"), <<>>, d), "s")
    [] fn = "Masup" -> Wrap(CallC(o, l, r, SuperCands(o, h, "m:"), <<>>, d), "u")
    [] fn = "Msup1" -> Wrap(CallC(o, l, r, SuperCands(o, h, "m:"), args, d), "s1")
    [] fn = "Msup2" -> Wrap(CallC(o, l, r, SuperCands(o, h, "m:"), args \o <<"q">>, d), "s2")
    [] fn = "Msupn" -> Wrap(CallC(o, l, r, SuperCands(o, h, "m:"), args, d), "un")
    [] fn = "Msugar" -> IF "n:" \notin Slots THEN Res("er", "", o, l) ELSE Wrap(CallC(o, l, r, SuperCands(o, h, "n:"), <<>>, d), "t")
    [] fn = "Msend" -> Wrap(CallC(o, l, r, Opt(o, r, "n:"), <<>>, d), "x")
    [] fn = "Mparam" -> Res("ok", Lists(<<args[1], "9", "9">>), o, l)
    [] fn = "Mclos" -> LET x == Slot(o, r, "a:", l) IN IF x.t = "ok" THEN Res("ok", "((1 " \o x.v \o ") (2 " \o x.v \o "))", o, l) ELSE x
    [] fn = "Msetself" -> IF "b:" \in Slots THEN Res("ok", "7", [o EXCEPT ![r]["b:"] = "7"], l) ELSE Res("skip", "", o, l)
    [] fn = "Margs" -> LET x == Slot(o, r, "a:", l) IN IF x.t = "ok" THEN Res("ok", Lists(<<args[1], x.v, Lists(Tail(args))>>), o, l) ELSE x
    [] fn = "Mdef" -> Res("ok", Lists(<<"5", Bool(Opt(o, r, "a:") # {})>>), o, l)
    [] fn = "Minner" -> LET x == CallC(o, l, r, Opt(o, r, "n:"), <<>>, d) IN IF x.t = "ok" THEN [x EXCEPT !.v = Lists(<<"4", "3", x.v>>)] ELSE x
    [] fn = "Mfnslot" -> \* apply of a slot's value
         LET cs == Opt(o, r, "n:") IN
         IF Cardinality(cs) > 1 THEN Res("skip", "", o, l)
         ELSE IF cs = {} THEN Res("er", "", o, l) ELSE Wrap(CallC(o, l, r, cs, <<>>, d), "f")
    [] fn = "Mletset" ->
         LET cs == Opt(o, r, "b:") IN
         IF cs = {} THEN Res("er", "", o, l)
         ELSE Res("ok", Lists(<<args[1], args[1]>>), [o EXCEPT ![r]["b:"] = args[1]], l)
    [] fn = "Mcloneself" ->
         LET vs == {c[1] : c \in Opt(o, r, "a:")} IN
         IF Cardinality(vs) > 1 THEN Res("skip", "", o, l) ELSE Res("ok", Lists(<<"6", IF vs = {} THEN "()" ELSE CHOOSE v \in vs : TRUE>>), o, l)
    [] fn = "Mother" -> Wrap(CallC(o, l, 1, Cands(o, 1, "m:"), <<>>, d), "o")   \* a message to another frame: self is that one

\* ---- behaviours
Dom(s) == {"none"} \cup (IF s \in DATA THEN VALS ELSE IF s \in METH THEN {"M" \o k : k \in KINDS} \cup (VALS \cap {"2"}) ELSE FrameNames \cup PVALS)
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
SlotSeq == SetToSeq(Slots)
OwnSet(o, f) == SelectSeq(SlotSeq, LAMBDA s : o[f][s] # "none")
\* literal without parents (those may not exist yet), then the parent slots
DefSteps(o) == [f \in F |-> LET ss == SelectSeq(OwnSet(o, f), LAMBDA s : s \notin PAR) IN
                  <<"(begin (define " \o V(f) \o " {" \o JoinWith([i \in 1..Len(ss) |-> ss[i] \o " " \o Src(o[f][ss[i]])], " ") \o "}) 1)", "1">>]
ParSteps(o) == LET fs == [f \in F |-> LET ss == SelectSeq(OwnSet(o, f), LAMBDA s : s \in PAR) IN
                  JoinWith([i \in 1..Len(ss) |-> "(set-slot! " \o V(f) \o " " \o ss[i] \o " " \o Src(o[f][ss[i]]) \o ")"], " ")] IN
               << <<"(begin (define a 'lex) " \o JoinWith(fs, " ") \o " 1)", "1">> >>
\* all assignments, built up slot by slot
RECURSIVE RecSet(_, _)
RecSet(S, f) == IF S = {} THEN {<<>>}
                ELSE LET s == CHOOSE s \in S : TRUE
                         D == IF s \in PAR /\ ANYINIT = "acyclic" THEN Dom(s) \ {FName(g) : g \in 1..f} ELSE Dom(s)
                     IN {(s :> v) @@ r : v \in D, r \in RecSet(S \ {s}, f)}
RECURSIVE Prod(_)
Prod(n) == IF n = 0 THEN {<<>>} ELSE {Append(o, r) : o \in Prod(n - 1), r \in RecSet(Slots, n)}
ProductSet(n) == Prod(n)
Init == /\ own \in (IF ANYINIT # "random" THEN ProductSet(NF)
                    ELSE {[f \in F |-> [s \in Slots |-> "none"]]})
        /\ lex = "lex"
        /\ steps = IF ANYINIT = "random" THEN <<>> ELSE DefSteps(own) \o ParSteps(own)
Step(src, exp) == steps # <<>> /\ steps' = Append(steps, <<src, exp>>)
Same == UNCHANGED <<own, lex>>
Alts(vs) == IF Cardinality(vs) = 1 THEN Canon(CHOOSE v \in vs : TRUE) ELSE "?|" \o JoinWith(SetToSeq({Canon(v) : v \in vs}), "||")
SetOwn(f, s, v) == own' = [own EXCEPT ![f][s] = v] /\ UNCHANGED lex

Get(f, s, form) ==
  LET vs == Values(own, f, s)
      src == CASE form = 1 -> "(get-slot " \o V(f) \o " " \o s \o ")" [] form = 2 -> "(" \o s \o " " \o V(f) \o ")"
               [] form = 3 -> "(get-slot-or-nil " \o V(f) \o " " \o s \o ")" [] form = 4 -> "(let ((g " \o V(f) \o ")) (get-slot g " \o s \o "))"
  IN /\ Same /\ vs \cap FrameNames = {}
     /\ Step(src, IF vs = {} THEN (IF form = 3 THEN "()" ELSE "!E") ELSE Alts(vs))
\* which frame a parent slot holds
GetParent(f, s) ==
  LET vs == Values(own, f, s) IN
  /\ s \in PAR /\ vs # {} /\ vs \subseteq FrameNames /\ Same
  /\ Step("(let ((x (get-slot " \o V(f) \o " " \o s \o "))) (list " \o JoinWith([g \in F |-> "(vsame? x " \o V(g) \o ")"], " ") \o "))",
          "?|" \o JoinWith(SetToSeq({Lists([g \in F |-> Bool(FOf(v) = g)]) : v \in vs}), "||"))
HasOp(f, s, form) == Same /\ Step(IF form = 1 THEN "(has-slot? " \o V(f) \o " " \o s \o ")" ELSE "(" \o s \o "? " \o V(f) \o ")", Bool(Has(own, f, s)))
SetOp(f, s, v, form) ==
  /\ Step(CASE form = 1 -> "(set-slot! " \o V(f) \o " " \o s \o " " \o Src(v) \o ")" [] form = 2 -> "(" \o s \o "! " \o V(f) \o " " \o Src(v) \o ")"
            [] form = 3 -> "(let ((g " \o V(f) \o ")) (begin (set-slot! g " \o s \o " " \o Src(v) \o ")))", IF v \in FrameNames THEN "?V" ELSE Canon(v))
  /\ SetOwn(f, s, v)
Remove(f, s) == Step("(remove-slot! " \o V(f) \o " " \o s \o ")", Bool(own[f][s] # "none")) /\ SetOwn(f, s, "none")
\* frame g becomes a clone of f
Clone(f, g) ==
  /\ f # g /\ \A h \in F, p \in PAR : own[h][p] # FName(g)
  /\ Step("(begin (define " \o V(g) \o " (clone " \o V(f) \o ")) (vsame? " \o V(g) \o " " \o V(f) \o "))", "#f")
  /\ own' = [own EXCEPT ![g] = own[f]] /\ UNCHANGED lex
ArgLists == {<<>>, <<"4">>, <<"4", "8">>}
\* arguments are given by expressions, evaluated once: 4 is (car (list 4))
ArgSrc(x) == "(car (list " \o x \o "))"
Send(f, s, args, form) ==
  LET cs == Cands(own, f, s)
      x == CallC(own, lex, f, cs, args, 8)
  IN /\ x.t # "skip"
     /\ Step(CASE form = 1 -> "(send " \o V(f) \o " " \o s \o (IF args = <<>> THEN "" ELSE " " \o JoinWith(args, " ")) \o ")"
               [] form = 2 -> "(" \o s \o "> " \o V(f) \o (IF args = <<>> THEN "" ELSE " " \o JoinWith([i \in 1..Len(args) |-> ArgSrc(args[i])], " ")) \o ")"
               [] form = 3 -> "(apply-slot " \o V(f) \o " " \o s \o " '" \o Paren(args) \o ")"
               [] form = 4 -> IF args = <<>> THEN "(apply-slot " \o V(f) \o " " \o s \o " (list))" ELSE "(apply-slot " \o V(f) \o " " \o s \o " " \o args[1] \o " '" \o Paren(Tail(args)) \o ")",
             IF x.t = "ok" THEN x.v ELSE "!E")
     /\ own' = x.o /\ lex' = x.l
\* the function itself taken out and called: no receiver
Detached(f, s) ==
  LET vs == Values(own, f, s) IN
  /\ vs = {"Mget"} /\ Same
  /\ Step("((lambda (fn) (fn)) (get-slot " \o V(f) \o " " \o s \o "))", lex)
KeysOp(f) == Same /\ Step("(list (length (frame-keys " \o V(f) \o ")) (length (frame-values " \o V(f) \o ")) (length " \o V(f) \o "))",
                          LET n == Str(Len(OwnSet(own, f))) IN Lists(<<n, n, n>>))
KeyIn(f, s) == Same /\ Step("(if (memq " \o s \o " (frame-keys " \o V(f) \o ")) #t #f)", Bool(own[f][s] # "none"))
Misuse ==
  /\ MISUSE /\ Same
  /\ \/ \E b \in {"5", "'()", "\"f1\"", "'f1", "[1 2]", "(list f1)", "(lambda () 1)"} :
          Step("(get-slot " \o b \o " a:)", "!E") \/ Step("(has-slot? " \o b \o " a:)", "!E") \/ Step("(set-slot! " \o b \o " a: 1)", "!E") \/ Step("(clone " \o b \o ")", "!E")
          \/ Step("(send " \o b \o " m:)", "!E") \/ Step("(get-slot-or-nil " \o b \o " a:)", "!E") \/ Step("(frame-keys " \o b \o ")", "!E") \/ Step("(frame-values " \o b \o ")", "!E")
          \/ Step("(apply-slot " \o b \o " m: '())", "!E") \/ (b # "'()" /\ Step("(remove-slot! " \o b \o " a:)", "!E")) \/ Step("(a: " \o b \o ")", "!E")
     \/ \E k \in {"'a", "\"a:\"", "5", "'()", "(list a:)"} :
          Step("(get-slot f1 " \o k \o ")", "!E") \/ Step("(has-slot? f1 " \o k \o ")", "!E") \/ Step("(set-slot! f1 " \o k \o " 1)", "!E") \/ Step("(remove-slot! f1 " \o k \o ")", "!E")
          \/ Step("(send f1 " \o k \o ")", "!E") \/ Step("(get-slot-or-nil f1 " \o k \o ")", "!E") \/ Step("(apply-slot f1 " \o k \o " '())", "!E") \/ Step("(make-frame a: 1 " \o k \o " 2)", "!E")
     \/ \E s \in {"(get-slot f1)", "(get-slot f1 a: 1)", "(set-slot! f1 a:)", "(send f1)", "(clone)", "(clone f1 f1)", "(make-frame a:)", "(make-frame a: 1 b:)", "(send-super m:)", "(m:^)",
                  "(apply-slot-super m: '())", "(remove-slot! f1)", "(has-slot? f1)", "(set! zz 1)", "(apply-slot f1 m: 3)", "(get-slot f1 zz:)", "(zz:> f1)", "(send f1 zz:)"} : Step(s, "!E")
     \/ Step("(remove-slot! '() a:)", "#f") \/ Step("(remove-slot! f1 zz:)", "#f") \/ Step("(zz:? f1)", "#f") \/ Step("(get-slot-or-nil f1 zz:)", "()")

\* one random state to start from
Setup == /\ steps = <<>>
         /\ \E x \in {1} : own' = [f \in F |-> [s \in Slots |-> RandomElement(Dom(s))]]
         /\ steps' = DefSteps(own') \o ParSteps(own') /\ UNCHANGED lex
Next == \/ Setup
        \/ \E f \in F, s \in Slots : \/ \E k \in FORMS : Get(f, s, k)
                                     \/ GetParent(f, s)
                                     \/ \E k \in FORMS \cap {1, 2} : HasOp(f, s, k)
                                     \/ \E v \in Dom(s) \ {"none"}, k \in FORMS \cap {1, 2, 3} : SetOp(f, s, v, k)
                                     \/ Remove(f, s) \/ KeyIn(f, s)
        \/ \E f \in F, g \in F : Clone(f, g)
        \/ \E f \in F, s \in METH, as \in ArgLists, k \in FORMS : Send(f, s, as, k)
        \/ \E f \in F, s \in METH : Detached(f, s)
        \/ \E f \in F : KeysOp(f)
        \/ Misuse
Spec == Init /\ [][Next]_vars
\* ---- properties of the design
\* reading a slot gives a value some reachable frame really has, and own slots always win
OwnWins == \A f \in F, s \in Slots : own[f][s] # "none" => Values(own, f, s) = {own[f][s]}
HasIffReadable == \A f \in F, s \in Slots : Has(own, f, s) <=> Values(own, f, s) # {}
\* one step changes the slots of one frame at most, unless a function ran
OneFrame == [][Cardinality({f \in F : own[f] # own'[f]}) <= 1 \/ METH # {}]_vars
View == <<own, lex>>
Order == <<"a:", "b:", "c:", "m:", "n:", "p*:", "q*:">>
Shown(o, f) == LET ss == SelectSeq(Order, LAMBDA s : s \in Slots /\ o[f][s] # "none")
               IN "{" \o JoinWith([i \in 1..Len(ss) |-> ss[i] \o " " \o Canon(o[f][ss[i]])], " ") \o "}"
\* every behaviour ends by looking at all frames
Tidy == [f \in F |-> <<V(f), Shown(own', f)>>] \o << <<"a", lex'>> >>
Bounded == Len(steps) < NF + 1 + DEPTH
BoundedNext == Len(steps') < NF + 1 + DEPTH
EmitEdge == EmitSteps("e", steps' \o Tidy)
EmitPath == IF Len(steps') = NF + 1 + DEPTH THEN EmitSteps("p", steps' \o Tidy) ELSE TRUE
=============================================================================
