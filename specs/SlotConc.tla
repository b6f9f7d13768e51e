------------------------------ MODULE SlotConc ------------------------------
(* Function objects that several processes use at the same time in different roles: *)
(* as a slot of their frame, as a parameter, as a variable of an outer scope. Whether *)
(* a function runs in the caller's frame depends on how this call found it, and on     *)
(* nothing another process does: found in the innermost scope or in a slot it does,    *)
(* found further out it does not. Shared: h, which yields a; m1 calls h; m2 calls its   *)
(* parameter; m3 calls h under a local name; m4 calls hs. Every session has frames of    *)
(* its own with the shared functions as slots.                                           *)
EXTENDS Emit
CONSTANTS K, REP

Glob == "0"
\* a frame: has slot h:, has slot hs:, has its own a:, inherits from the first frame
Kinds == { k \in [h : BOOLEAN, hs : BOOLEAN, a : BOOLEAN, sub : BOOLEAN] : k.a \/ k.sub }
Base == [h |-> FALSE, hs |-> TRUE, a |-> TRUE, sub |-> FALSE]
HasH(k) == k.h \/ (k.sub /\ Base.h)
HasHs(k) == k.hs \/ (k.sub /\ Base.hs)
AOf(k, own, base) == IF k.a THEN own ELSE base

\* what a call yields in a session whose base frame has a = base and whose other frame, of kind k, has a = own
\* (the value of a that h sees when it runs in the receiver's frame, or the global one)
In(k, own, base, inframe) == IF inframe THEN AOf(k, own, base) ELSE Glob
Calls(k, own, base) ==
  LET a == AOf(k, own, base) IN <<
   << "(m1:> f)", In(k, own, base, HasH(k)) >>,                                  \* h: a slot, or else of the outer scope
   << "(m2:> f h)", a >>,                                                         \* a parameter
   << "(send f m2: h)", a >>,
   << "(m3:> f)", a >>,                                                           \* a local name
   << "(m4:> f)", IF HasHs(k) THEN a ELSE "!E" >>,                                \* a slot
   << "(m5:> f)", "(" \o In(k, own, base, HasH(k)) \o " " \o a \o " " \o In(k, own, base, HasH(k)) \o ")" >>,
   << "(h)", Glob >>, << "(m1)", Glob >>, << "(m2 h)", Glob >>, << "(m3)", Glob >>, << "(m5)", "(0 0 0)" >>,
   << "(m4:> b)", base >>, << "(m2:> b h)", base >>, << "(m1:> b)", Glob >>,
   << "(map m2 (list h h))", "(0 0)" >>,
   << "(m6:> f 3)", "(" \o a \o " " \o a \o " " \o a \o ")" >>,                   \* calls itself through its slot
   << "(list (m2:> f h) (m2:> b h) (m2 h))", "(" \o a \o " " \o base \o " 0)" >> >>

Prelude == << <<"(define a 0)", "0">>, <<"(define (h) a)", "<fn>">>, <<"(define m1 (lambda () (h)))", "<fn>">>, <<"(define m2 (lambda (p) (p)))", "<fn>">>,
              <<"(define m3 (lambda () (let ((q h)) (q))))", "<fn>">>, <<"(define m4 (lambda () (hs)))", "<fn>">>,
              <<"(define m5 (lambda () (list (h) (let ((q h)) (q)) (h))))", "<fn>">>,
              <<"(define m6 (lambda (n) (if (< n 1) '() (cons a (m6 (- n 1))))))", "<fn>">> >>
Methods == " m1: m1 m2: m2 m3: m3 m4: m4 m5: m5 m6: m6"
FrameText(k, own) == "{" \o (IF k.sub THEN "p*: b" ELSE "z: 1") \o (IF k.a THEN " a: " \o own ELSE "") \o (IF k.h THEN " h: h" ELSE "") \o (IF k.hs THEN " hs: h" ELSE "")
                     \o (IF k.sub THEN "" ELSE Methods) \o "}"
Rotate(s, n) == [i \in 1..Len(s) |-> s[((i + n) % Len(s)) + 1]]
RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN <<>> ELSE s \o Repeat(s, n - 1)
Session(k, s) ==
  LET own == Str(10 * s + 1) base == Str(10 * s + 2) IN
  << <<"(define b " \o FrameText(Base, base) \o ")", "?V">>, <<"(define f " \o FrameText(k, own) \o ")", "?V">> >>
  \o Repeat(Rotate(Calls(k, own, base), 3 * s), REP)

SeqOf(S) == LET RECURSIVE Q(_) Q(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o Q(T \ {x}) IN Q(S)
Ks == SeqOf(Kinds)
VARIABLE i
Init == i = 0
Next == /\ i < Len(Ks) /\ i' = i + 1
        /\ Serialize(ToJson([id |-> "slot", s |-> Prelude, g |-> [s \in 1..K |-> Session(Ks[((i + s * s) % Len(Ks)) + 1], s)], a |-> << <<"(list (h) (m1) (m2 h))", "(0 0 0)">> >>]) \o "\n", Out,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Spec == Init /\ [][Next]_i
=============================================================================
