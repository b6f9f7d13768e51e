------------------------------ MODULE AlistSeq ------------------------------
(* Association lists as finite maps: m is the current one, made anew by every    *)
(* update (an update may reuse the alist it is given, so only the result is      *)
(* looked at afterwards); n is one that no operation is ever given to change.    *)
EXTENDS Emit, Integers, FiniteSets

CONSTANTS KEYS, VALS, DEPTH, MISUSE, ANYINIT,
          RANDOM     \* one random choice of each kind at a time
VARIABLES m, steps
vars == <<m, steps>>
None == "none"

Order == <<"a", "b", "c", "2", "2.5", "$s", "#t", "$a", "z:">>
\* source and canonical text of a key or value ($s is a string)
T(x) == CASE x = "$s" -> "\"s\"" [] x = "$a" -> "\"a\"" [] x = "$x" -> "\"x\"" [] OTHER -> x
C(x) == IF x = "2.5" THEN "2.5f" ELSE T(x)
SK == SelectSeq(Order, LAMBDA k : k \in KEYS)
Dom(f) == SelectSeq(SK, LAMBDA k : f[k] # None)
D(x) == "'" \o T(x)
\* the constant alist
NMap == [k \in KEYS |-> IF k = SK[1] THEN "1" ELSE IF k = SK[Len(SK)] THEN "(7 8)" ELSE None]
PairsSrc(f, ks) == "'(" \o JoinWith([i \in 1..Len(ks) |-> "(" \o T(ks[i]) \o " . " \o T(f[ks[i]]) \o ")"], " ") \o ")"
RevS(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* ways of making the alist of a map
Make(f, way) ==
  LET ks == Dom(f) IN
  CASE way = 1 -> "(alist " \o PairsSrc(f, ks) \o ")"
    [] way = 2 -> "(alist " \o PairsSrc(f, RevS(ks)) \o ")"
    [] way = 3 -> IF ks = <<>> THEN "'()" ELSE "(pairlis '" \o Paren([i \in 1..Len(ks) |-> T(ks[i])]) \o " '" \o Paren([i \in 1..Len(ks) |-> T(f[ks[i]])]) \o ")"
    [] way = 4 -> IF ks = <<>> THEN "'()" ELSE LET RECURSIVE Ch(_)
                                                   Ch(j) == IF j > Len(ks) THEN "'()" ELSE "(acons " \o D(ks[j]) \o " " \o D(f[ks[j]]) \o " " \o Ch(j + 1) \o ")"
                                               IN Ch(1)
    [] way = 5 -> "(list " \o JoinWith([i \in 1..Len(ks) |-> "(cons " \o D(ks[i]) \o " " \o D(f[ks[i]]) \o ")"], " ") \o ")"   \* a plain list of pairs
    [] way = 6 -> "(copy (alist " \o PairsSrc(f, ks) \o "))"
Look(f) ==
  LET ask(v, g) == "(list " \o JoinWith([i \in 1..Len(SK) |-> "(let ((p (assoc " \o D(SK[i]) \o " " \o v \o "))) (if (nil? p) 'none (list (car p) (cdr p))))"], " ") \o " (length " \o v \o "))"
      ans(g) == "(" \o JoinWith([i \in 1..Len(SK) |-> IF g[SK[i]] = None THEN "none" ELSE "(" \o C(SK[i]) \o " " \o C(g[SK[i]]) \o ")"], " ") \o " " \o Str(Len(Dom(g))) \o ")"
  IN << <<ask("m", f), ans(f)>>, <<ask("n", NMap), ans(NMap)>> >>
Maps == [KEYS -> VALS \cup {None}]
Start(f, way) == << <<"(begin (define m " \o Make(f, way) \o ") (define n " \o Make(NMap, 1) \o ") 1)", "1">> >>
Init == IF ANYINIT THEN m \in Maps /\ \E w \in 1..6 : steps = Start(m, w)
        ELSE m = [k \in KEYS |-> None] /\ steps = Start(m, 1)
Act(src, f) == m' = f /\ steps' = steps \o << <<"(begin (set! m " \o src \o ") 1)", "1">> >> \o Look(f)
Q(src, exp) == m' = m /\ steps' = steps \o << <<src, exp>> >> \o Look(m)

Acons(k, v) == Act("(acons " \o D(k) \o " " \o D(v) \o " m)", [m EXCEPT ![k] = v])
Dissoc(k) == Act("(dissoc " \o D(k) \o " m)", [m EXCEPT ![k] = None])
\* without taking the result: the argument stays
DissocOnly(k) == Q("(begin (dissoc " \o D(k) \o " m) 1)", "1")
Pairlis(k, j, v, w) == k # j /\ Act("(pairlis '(" \o T(k) \o " " \o T(j) \o ") '(" \o T(v) \o " " \o T(w) \o ") m)", [m EXCEPT ![k] = v, ![j] = w])
CopyIt == Act("(copy m)", m)
\* a copy shares nothing with the original
CopyApart(k, v) == Q("(begin (acons " \o D(k) \o " " \o D(v) \o " (copy m)) 1)", "1")
Other(k, v) == Q("(begin (acons " \o D(k) \o " " \o D(v) \o " (copy n)) (dissoc " \o D(k) \o " n) 1)", "1")
Alts(S) == LET RECURSIVE J(_)
               J(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o J(X \ {x})
           IN "?|" \o JoinWith(J(S), "||")
Rassoc(v) == LET ks == {k \in KEYS : m[k] = v} IN Q("(car (rassoc " \o D(v) \o " m))", IF ks = {} THEN "()" ELSE Alts({C(k) : k \in ks}))
RassocNone == Q("(rassoc 'nosuch m)", "()")
AssocNone == Q("(assoc 'nosuch m)", "()") \/ Q("(assq 'nosuch m)", "()") \/ Q("(assv 'nosuch m)", "()")
AssocAs(k) == \E f \in {"assq", "assv"} : Q("(let ((p (" \o f \o " " \o D(k) \o " m))) (if (nil? p) 'none (cdr p)))", IF m[k] = None THEN "none" ELSE C(m[k]))
Equal(f) == \E w \in 1..4 : Q("(equal? (alist m) " \o Make(f, w) \o ")", Bool(f = m))
\* duplicate keys in a plain list: the first counts
Dups(k, v, w) == Q("(cdr (assoc " \o D(k) \o " '((" \o T(k) \o " . " \o T(v) \o ") (" \o T(k) \o " . " \o T(w) \o "))))", C(v)) \/ Q("(cdr (assoc " \o D(k) \o " (alist '((" \o T(k) \o " . " \o T(v) \o ") (" \o T(k) \o " . " \o T(w) \o ")))))", C(v))
NotAlist == {"5", "\"abc\"", "'x", "'(1 2)", "'((q . 1) 2)", "#t", "[1 2]", "{a: 1}", "(list 1 '(q . 1))"}
Misuse == /\ MISUSE
          /\ \/ \E x \in NotAlist : Q("(assoc 'nosuch " \o x \o ")", "!E") \/ Q("(rassoc 'nosuch " \o x \o ")", "!E") \/ Q("(dissoc 'nosuch " \o x \o ")", "!E") \/ Q("(acons 'k 1 " \o x \o ")", "!E") \/ Q("(alist " \o x \o ")", "!E")
                                    \/ Q("(pairlis '(k) '(1) " \o x \o ")", "!E") \/ Q("(assq 'nosuch " \o x \o ")", "!E")
             \/ \E x \in {"(acons '(1) 1 m)", "(acons '() 1 m)", "(pairlis '(a b) '(1) m)", "(pairlis 'a '(1))", "(pairlis '(a) 1)", "(pairlis '(a) '(1 2))", "(acons 'a)", "(acons 'a 1 m m)", "(assoc 'a)", "(dissoc 'a)", "(pairlis (list nil) '(1) (copy m))",
                           "(acons (error \"e\") 1 m)", "(acons 'a (error \"e\") m)", "(dissoc (error \"e\") m)"} : Q(x, "!E")
Pick(S) == IF RANDOM THEN {RandomElement(S)} ELSE S
Next == \/ \E k \in Pick(KEYS) : \/ \E v \in Pick(VALS) : Acons(k, v) \/ CopyApart(k, v) \/ Other(k, v)
                                  \/ Dissoc(k) \/ DissocOnly(k) \/ AssocAs(k)
        \/ \E k \in Pick(KEYS), j \in Pick(KEYS), v \in Pick(VALS), w \in Pick(VALS) : Pairlis(k, j, v, w)
        \/ \E k \in Pick(KEYS), v \in Pick(VALS), w \in Pick(VALS) : v # w /\ Dups(k, v, w)
        \/ CopyIt \/ RassocNone \/ AssocNone
        \/ \E v \in Pick(VALS) : Rassoc(v)
        \/ \E k \in Pick(KEYS), v \in Pick(VALS \cup {None}) : Equal([m EXCEPT ![k] = v])
        \/ Misuse
Spec == Init /\ [][Next]_vars
TypeOK == m \in Maps
OneKey == [][Cardinality({k \in KEYS : m'[k] # m[k]}) <= 2]_vars
View == m
Bounded == Len(steps) < 1 + DEPTH
BoundedNext == Len(steps') < 1 + DEPTH
EmitEdge == EmitSteps("e", steps')
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
