------------------------------- MODULE Values -------------------------------
(* Lisp values as structure, what equality means for them, how the canonical    *)
(* form writes them and ways in which a program can build them.                 *)
(*   <<"n">> ()   <<"i", t>> integer   <<"f", t>> float   <<"s", t>> string     *)
(*   <<"y", t>> symbol   <<"b", t>> boolean   <<"c", car, cdr>> pair            *)
(*   <<"B", bytes>> bytearray   <<"F", slots>> frame   <<"A", pairs>> alist     *)
(*   <<"x", text, canon>> an atom whose canonical form is not its text          *)
(*   <<"o", name>> something with an identity of its own                        *)
EXTENDS Emit, Integers

VNil == <<"n">>
VI(t) == <<"i", t>>
VF(t) == <<"f", t>>
VS(t) == <<"s", t>>
VY(t) == <<"y", t>>
VB(t) == <<"b", t>>
VC(x, y) == <<"c", x, y>>
VBytes(s) == <<"B", s>>
VFrame(s) == <<"F", s>>          \* <<key, value>> pairs in ascending order of keys
VAlist(s) == <<"A", s>>          \* <<key, value>> pairs
VX(t, c) == <<"x", t, c>>
VObj(t) == <<"o", t>>
T(v) == v[1]
RECURSIVE VList(_)
VList(s) == IF s = <<>> THEN VNil ELSE VC(s[1], VList(Tail(s)))
RECURSIVE Proper(_)
Proper(v) == T(v) = "n" \/ (T(v) = "c" /\ Proper(v[3]))
RECURSIVE Elements(_)
Elements(v) == IF T(v) = "c" THEN <<v[2]>> \o Elements(v[3]) ELSE <<>>

(* ---- equality.  An alist and a list of pairs are the same when they denote the same map. *)
RECURSIVE Same(_, _), MapSame(_, _)
\* the value the list of pairs s gives to key k: the first one with that key
Find(s, k) == LET idx == {i \in 1..Len(s) : Same(s[i][1], k)} IN
              IF idx = {} THEN <<>> ELSE s[CHOOSE i \in idx : \A j \in idx : i <= j]
PairsOf(v) == IF T(v) = "A" THEN v[2] ELSE [i \in 1..Len(Elements(v)) |-> <<Elements(v)[i][2], Elements(v)[i][3]>>]
ListOfPairs(v) == T(v) = "A" \/ (Proper(v) /\ \A i \in 1..Len(Elements(v)) : T(Elements(v)[i]) = "c")
MapSame(a, b) ==
  /\ ListOfPairs(b)
  /\ LET p == a[2] q == PairsOf(b) IN
     /\ Len(p) = Len(q)
     /\ \A i \in 1..Len(p) : LET o == Find(q, p[i][1]) IN o # <<>> /\ Same(p[i][2], o[2])
Same(a, b) ==
  CASE T(a) = "A" /\ T(b) \in {"A", "c"} -> MapSame(a, b)
    [] T(b) = "A" /\ T(a) = "c" -> MapSame(b, a)
    [] T(a) # T(b) -> FALSE
    [] T(a) = "n" -> TRUE
    [] T(a) = "c" -> Same(a[2], b[2]) /\ Same(a[3], b[3])
    [] T(a) = "F" -> Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : a[2][i][1] = b[2][i][1] /\ Same(a[2][i][2], b[2][i][2])
    [] OTHER -> a[2] = b[2]

(* ---- canonical form (harness/canon.go) *)
RECURSIVE Canon(_), CanonTail(_)
CanonTail(v) == CASE T(v) = "n" -> ")"
                  [] T(v) = "c" -> " " \o Canon(v[2]) \o CanonTail(v[3])
                  [] T(v) = "A" -> JoinWith(<<"">> \o [i \in 1..Len(v[2]) |-> Canon(VC(v[2][i][1], v[2][i][2]))], " ") \o ")"
                  [] OTHER -> " . " \o Canon(v) \o ")"
Canon(v) ==
  CASE T(v) = "n" -> "()"
    [] T(v) = "f" -> v[2] \o "f"
    [] T(v) = "x" -> v[3]
    [] T(v) = "s" -> "\"" \o v[2] \o "\""
    [] T(v) = "c" -> "(" \o Canon(v[2]) \o CanonTail(v[3])
    [] T(v) = "B" -> "[" \o JoinWith([i \in 1..Len(v[2]) |-> Str(v[2][i])], " ") \o "]"
    [] T(v) = "F" -> "{" \o JoinWith([i \in 1..Len(v[2]) |-> v[2][i][1] \o " " \o Canon(v[2][i][2])], " ") \o "}"
    [] T(v) = "A" -> Paren([i \in 1..Len(v[2]) |-> Canon(VC(v[2][i][1], v[2][i][2]))])
    [] OTHER -> v[2]

(* ---- as a datum in program text *)
RECURSIVE Quotable(_), Text(_), TextTail(_)
Quotable(v) == CASE T(v) = "c" -> Quotable(v[2]) /\ Quotable(v[3]) [] T(v) \in {"F", "A", "o"} -> FALSE [] OTHER -> TRUE
TextTail(v) == CASE T(v) = "n" -> ")" [] T(v) = "c" -> " " \o Text(v[2]) \o TextTail(v[3]) [] OTHER -> " . " \o Text(v) \o ")"
Text(v) ==
  CASE T(v) = "n" -> "()"
    [] T(v) = "s" -> "\"" \o v[2] \o "\""
    [] T(v) = "c" -> "(" \o Text(v[2]) \o TextTail(v[3])
    [] T(v) = "B" -> "[" \o JoinWith([i \in 1..Len(v[2]) |-> Str(v[2][i])], " ") \o "]"
    [] OTHER -> v[2]

(* ---- as an expression that builds it; style 1..4 *)
RECURSIVE Make(_, _)
Rvs(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Make(v, y) ==
  CASE T(v) = "n" -> <<"'()", "nil", "(list)", "(cdr '(1))">>[y]
    [] T(v) = "i" -> <<v[2], "(+ 0 " \o v[2] \o ")", v[2], "(car '(" \o v[2] \o "))">>[y]
    [] T(v) = "f" -> <<v[2], "(+ 0 " \o v[2] \o ")", v[2], "(float " \o v[2] \o ")">>[y]
    [] T(v) = "s" -> <<Text(v), "(str " \o Text(v) \o ")", "(car '(" \o Text(v) \o "))", "(string-join (list " \o Text(v) \o " \"\") \"\")">>[y]
    [] T(v) = "y" -> <<"'" \o v[2], "(intern \"" \o v[2] \o "\")", "(quote " \o v[2] \o ")", "(cadr '(1 " \o v[2] \o "))">>[y]
    [] T(v) = "b" -> <<v[2], IF v[2] = "#t" THEN "(== 1 1)" ELSE "(== 1 2)", "(not (not " \o v[2] \o "))", "(car '(" \o v[2] \o "))">>[y]
    [] T(v) = "c" /\ y = 1 /\ Quotable(v) -> "'" \o Text(v)
    [] T(v) = "c" /\ y = 2 /\ Proper(v) -> Call("list", [i \in 1..Len(Elements(v)) |-> Make(Elements(v)[i], 2)])
    [] T(v) = "c" /\ y = 4 /\ T(v[2]) \notin {"n", "c", "A"} -> "(assoc " \o Make(v[2], 1) \o " (acons " \o Make(v[2], 2) \o " " \o Make(v[3], 4) \o " '()))"
    [] T(v) = "c" -> "(cons " \o Make(v[2], y) \o " " \o Make(v[3], y) \o ")"
    [] T(v) = "B" -> LET t == JoinWith([i \in 1..Len(v[2]) |-> Str(v[2][i])], " ") IN
                     IF v[2] = <<>> THEN "[]" ELSE <<"[" \o t \o "]", "(list->bytearray '(" \o t \o "))", "(copy [" \o t \o "])", "(append-bytes [] " \o t \o ")">>[y]
    [] T(v) = "F" -> LET f == [i \in 1..Len(v[2]) |-> v[2][i][1] \o " " \o Make(v[2][i][2], y)] IN
                     IF y = 3 THEN "(let ((f {})) " \o JoinWith([i \in 1..Len(v[2]) |-> "(set-slot! f " \o v[2][i][1] \o " " \o Make(v[2][i][2], y) \o ")"], " ") \o " f)"
                     ELSE IF y = 4 THEN "(clone " \o Call("make-frame", Rvs(f)) \o ")"
                     ELSE IF y = 2 THEN Call("make-frame", Rvs(f)) ELSE "{" \o JoinWith(f, " ") \o "}"
    [] T(v) = "A" -> LET p == [i \in 1..Len(v[2]) |-> "(cons " \o Make(v[2][i][1], y) \o " " \o Make(v[2][i][2], y) \o ")"] IN
                     IF y <= 2 THEN "(alist " \o Call("list", IF y = 1 THEN p ELSE Rvs(p)) \o ")"
                     ELSE IF y = 3 THEN "(pairlis " \o Call("list", [i \in 1..Len(v[2]) |-> Make(v[2][i][1], y)]) \o " " \o Call("list", [i \in 1..Len(v[2]) |-> Make(v[2][i][2], y)]) \o ")"
                     ELSE "(copy (alist " \o Call("list", p) \o "))"
    [] OTHER -> v[2]
=============================================================================
