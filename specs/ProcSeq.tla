------------------------------ MODULE ProcSeq ------------------------------
(* fork and join. Process i first waits for its gate, then finishes the way its  *)
(* kind says. The main program forks, opens gates and joins in any order.        *)
EXTENDS Emit

CONSTANTS NP, KINDS, DEPTH, MISUSE
VARIABLES st,       \* "none", "gated" (forked, waiting), "open" (running to its end)
          kind, joined, dep,   \* dep: the process a "cross" process joins
          steps
vars == <<st, kind, joined, dep, steps>>
P == 1..NP
G(i) == "g" \o Str(i)
N(i) == "n" \o Str(i)
Pr(i) == "p" \o Str(i)
\* the common beginning of every body: count the run, wait for the gate
Run(i) == "(atomic-add! " \o N(i) \o " 1) (channel-read " \o G(i) \o ")"

Shared == "(define (shared p n g v) (atomic-add! n 1) (channel-read g) (list (join p) v))"
Rec == "(define (recf p n g k) (if (== k 0) (begin (atomic-add! n 1) (channel-read g) (list 'r (join p))) (recf p n g (- k 1))))"
\* names the implementation might use itself are the program's own
Names == "(define parentProcess 1) (define process 2) (define proc 3) (define env 4) (define args 5)"
Helper == "(define (selfjoin p) (join p))"
Tools == "(define (waitn a) (do ((k 0 (+ k 1))) ((or (== (atomic-load a) 1) (> k 10000)) (atomic-load a)) (vsleep 500)))"

ForkSrc(i, k, j) ==
  CASE k = "val"    -> "(fork (lambda (p) " \o Run(i) \o " (list 'v " \o Str(i) \o ")))"
    [] k = "nil"    -> "(fork (lambda (p) " \o Run(i) \o " '()))"
    [] k = "false"  -> "(fork (lambda (p) " \o Run(i) \o " #f))"
    [] k = "err"    -> "(fork (lambda (p) " \o Run(i) \o " (error \"stop\") 5))"
    [] k = "panic"  -> "(fork (lambda (p) " \o Run(i) \o " (vpanic) 5))"
    [] k = "deep"   -> "(fork (lambda (p) " \o Run(i) \o " (car (map (lambda (x) (undefined-function x)) '(1 2))) 5))"
    [] k = "self"   -> "(fork (lambda (p) " \o Run(i) \o " (list 's (join p) (join p))))"
    [] k = "helper" -> "(fork (lambda (p) " \o Run(i) \o " (list 'h (selfjoin p) (let ((q p)) (map (lambda (x) (join x)) (list q p))))))"
    [] k = "args"   -> "(fork (lambda (p a b) " \o Run(i) \o " (list a b)) (+ 1 2) '(x y))"
    [] k = "names"  -> "(fork (lambda (p) " \o Run(i) \o " (list parentProcess process proc env args (let ((parentProcess 3)) (set! parentProcess (+ parentProcess 1)) parentProcess))))"
    [] k = "rest"   -> "(fork (lambda (p a . r) " \o Run(i) \o " (list a r)) 1 2 3)"
    [] k = "rest0"  -> "(fork (lambda (p a . r) " \o Run(i) \o " (list a r (join p))) 1)"
    [] k = "shared" -> "(fork shared " \o N(i) \o " " \o G(i) \o " " \o Str(i) \o ")"
    [] k = "rec"    -> "(fork recf " \o N(i) \o " " \o G(i) \o " 3)"
    [] k = "nested" -> "(fork (lambda (p) " \o Run(i) \o " (join (fork (lambda (q) (list 'inner (join q)))))))"
    [] k = "cross"  -> "(fork (lambda (p) " \o Run(i) \o " (list 'c (on-error (join " \o Pr(j) \o ") (lambda (e) 'err)))))"
\* the value a join of process i yields (cross: when it is the first to join process j)
Val(i) ==
  CASE kind[i] = "val" -> "(v " \o Str(i) \o ")"
    [] kind[i] \in {"nil", "err", "panic", "deep"} -> "()"
    [] kind[i] = "false" -> "#f"
    [] kind[i] = "self" -> "(s () ())"
    [] kind[i] = "helper" -> "(h () (() ()))"
    [] kind[i] = "args" -> "(3 (x y))"
    [] kind[i] = "names" -> "(1 2 3 4 5 4)"
    [] kind[i] = "rest" -> "(1 (2 3))"
    [] kind[i] = "rest0" -> "(1 () ())"
    [] kind[i] = "shared" -> "(() " \o Str(i) \o ")"
    [] kind[i] = "rec" -> "(r ())"
    [] kind[i] = "nested" -> "(inner ())"

Init == /\ st = [i \in P |-> "none"] /\ kind = [i \in P |-> "none"] /\ joined = [i \in P |-> FALSE] /\ dep = [i \in P |-> 0]
        /\ steps = << <<"(begin " \o Tools \o Names \o Shared \o Rec \o Helper \o " 1)", "1">> >>
                   \o [i \in P |-> <<"(begin (define " \o G(i) \o " (make-channel)) (define " \o N(i) \o " (atomic)) 1)", "1">>]
Add(ss) == steps' = steps \o ss
Do(src, exp) == Add(<< <<src, exp>> >>)

Fork(i, k) ==
  /\ st[i] = "none" /\ k # "cross"
  /\ Do("(begin (define " \o Pr(i) \o " " \o ForkSrc(i, k, 0) \o ") 'forked)", "forked")
  /\ st' = [st EXCEPT ![i] = "gated"] /\ kind' = [kind EXCEPT ![i] = k] /\ UNCHANGED <<joined, dep>>
\* a process that joins another one
ForkCross(i, j) ==
  /\ "cross" \in KINDS /\ i # j /\ st[i] = "none" /\ st[j] # "none" /\ kind[j] # "cross"
  /\ Do("(begin (define " \o Pr(i) \o " " \o ForkSrc(i, "cross", j) \o ") 'forked)", "forked")
  /\ st' = [st EXCEPT ![i] = "gated"] /\ kind' = [kind EXCEPT ![i] = "cross"] /\ dep' = [dep EXCEPT ![i] = j] /\ UNCHANGED joined
Open(i) ==
  /\ st[i] = "gated" /\ kind[i] # "cross"
  /\ Do("(begin (channel-write " \o G(i) \o " 1) 'go)", "go")
  /\ st' = [st EXCEPT ![i] = "open"] /\ UNCHANGED <<kind, joined, dep>>
\* open a cross process and join it: it joins process j, which has to be open
OpenCross(i) ==
  LET j == dep[i] IN
  /\ st[i] = "gated" /\ kind[i] = "cross" /\ st[j] = "open" /\ ~joined[i]
  /\ Do("(begin (channel-write " \o G(i) \o " 1) (join " \o Pr(i) \o "))", "(c " \o (IF joined[j] THEN "err" ELSE Val(j)) \o ")")
  /\ joined' = [joined EXCEPT ![j] = TRUE, ![i] = TRUE]
  /\ st' = [st EXCEPT ![i] = "open"] /\ UNCHANGED <<kind, dep>>
\* ... or still waits for its gate: then the joiner waits too
OpenCrossEarly(i) ==
  LET j == dep[i] IN
  /\ st[i] = "gated" /\ kind[i] = "cross" /\ st[j] = "gated" /\ ~joined[i] /\ ~joined[j]
  /\ Do("(begin (channel-write " \o G(i) \o " 1) (vsleep 500) (channel-write " \o G(j) \o " 1) (join " \o Pr(i) \o "))", "(c " \o Val(j) \o ")")
  /\ joined' = [joined EXCEPT ![j] = TRUE, ![i] = TRUE]
  /\ st' = [st EXCEPT ![i] = "open", ![j] = "open"] /\ UNCHANGED <<kind, dep>>
Join(i) ==
  /\ st[i] = "open"
  /\ IF joined[i] THEN Do("(join " \o Pr(i) \o ")", "!E")
     ELSE Do("(let* ((parentProcess " \o Pr(i) \o ") (r (join parentProcess))) (list r (atomic-load " \o N(i) \o ")))", "(" \o Val(i) \o " 1)")
  /\ joined' = [joined EXCEPT ![i] = TRUE] /\ UNCHANGED <<st, kind, dep>>
\* a joiner that has to wait until the process has finished
JoinEarly(i) ==
  /\ st[i] = "gated" /\ kind[i] # "cross" /\ ~joined[i]
  /\ Do("(let* ((flag (atomic 0)) (hp (fork (lambda (p) (let ((r (on-error (join " \o Pr(i) \o ") (lambda (e) 'err)))) (atomic-store! flag 1) r)))) "
        \o "(pause (vsleep 1500)) (late (atomic-load flag)) (here (channel-write " \o G(i) \o " 1))) (list late (join hp)))", "(0 " \o Val(i) \o ")")
  /\ joined' = [joined EXCEPT ![i] = TRUE] /\ st' = [st EXCEPT ![i] = "open"] /\ UNCHANGED <<kind, dep>>
\* several joiners at once: exactly one of them gets the value
JoinRace(i) ==
  /\ st[i] = "gated" /\ kind[i] # "cross" /\ ~joined[i]
  /\ LET one == "(fork (lambda (p) (on-error (join " \o Pr(i) \o ") (lambda (e) 'err))))" IN
     Do("(let* ((a " \o one \o ") (b " \o one \o ") (c " \o one \o ") (go (channel-write " \o G(i) \o " 1))) (list (join a) (join b) (join c)))",
        "?|(" \o Val(i) \o " err err)||(err " \o Val(i) \o " err)||(err err " \o Val(i) \o ")")
  /\ joined' = [joined EXCEPT ![i] = TRUE] /\ st' = [st EXCEPT ![i] = "open"] /\ UNCHANGED <<kind, dep>>
\* calling a forked function directly is not the process
DirectCall(i) ==
  /\ "shared" \in KINDS /\ st[i] = "open" /\ ~joined[i]
  /\ Do("(begin (define dn (atomic)) (define dg (make-channel 1)) (channel-write dg 1) (shared " \o Pr(i) \o " dn dg 'direct))", "(" \o Val(i) \o " direct)")
  /\ joined' = [joined EXCEPT ![i] = TRUE] /\ UNCHANGED <<st, kind, dep>>
Misuse ==
  /\ MISUSE /\ UNCHANGED <<st, kind, joined, dep>>
  /\ \E s \in {"(join 5)", "(join '())", "(join \"p1\")", "(join (atomic))", "(join (make-channel))", "(join (lambda (x) x))", "(join)", "(fork)",
               "(fork 5)", "(fork '())", "(fork car)", "(fork 'shared)", "(fork (lambda (a) 1) 2)", "(fork (lambda () 1))", "(fork (lambda (p a) 1))",
               "(fork (lambda (p a b . r) 1) 1)", "(fork shared n1 g1)", "(fork shared)", "(fork shared n1 g1 1 2)", "(wake 3)", "(abandon 3)", "(reset-timeout '())"} : Do(s, "!E")

Next == (\E i \in P : Open(i) \/ OpenCross(i) \/ OpenCrossEarly(i) \/ Join(i) \/ JoinEarly(i) \/ JoinRace(i) \/ DirectCall(i)
                     \/ (\E k \in KINDS : Fork(i, k)) \/ (\E j \in P : ForkCross(i, j))) \/ Misuse
Spec == Init /\ [][Next]_vars
JoinedRan == \A i \in P : joined[i] => st[i] = "open"
JoinedForever == [][\A i \in P : joined[i] => joined'[i]]_vars
View == <<st, kind, joined, dep>>
\* afterwards: nothing ran that was not forked, and everything forked ran exactly once; everything is let go
Tidy == [i \in P |-> IF st'[i] = "none" THEN <<"(atomic-load " \o N(i) \o ")", "0">>
                     ELSE IF st'[i] = "open" THEN <<"(waitn " \o N(i) \o ")", "1">>
                     ELSE <<"(begin (define r (waitn " \o N(i) \o ")) (channel-write " \o G(i) \o " 1) r)", "1">>]
Bounded == Len(steps) < NP + 1 + DEPTH
EmitEdge == EmitSteps("e", steps' \o Tidy)
EmitPath == IF Len(steps') = NP + 1 + DEPTH THEN EmitSteps("p", steps' \o Tidy) ELSE TRUE
=============================================================================
