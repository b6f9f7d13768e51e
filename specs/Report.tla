-------------------------------- MODULE Report --------------------------------
(* The analyser of profiles: from the records it reads the calls as trees with the *)
(* time each took, leaves out what had not ended, and reports per function how     *)
(* often and how long it was called, and the tree with what every call took itself. *)
EXTENDS Emit, Integers, FiniteSets, SequencesExt
CONSTANTS RANDOM, DEPTH, LIB, MAXNODES
VARIABLES open,    \* the calls under way, outermost first: [n, t, start, guid, kids]
          done,    \* the trees that are complete, in order
          now, made, text, reported, steps
vars == <<open, done, now, made, text, reported, steps>>
RE(S) == RandomElement(S)
Q(src, e) == << <<src, e>> >>
Types == IF RANDOM THEN {"func", "prim", "form"} ELSE {"func", "prim"}
Names == IF RANDOM THEN {"f", "g", "+", "let*", "a-name-of-twenty-chr", "a-name-of-more-than-twenty"} ELSE {"f", "g"}
File == "(vfn 1)"
Record(time, guid, mode, t, n) == "{time: " \o Str(time) \o " guid: " \o Str(guid) \o " mode: '" \o mode \o " type: '" \o t \o " name: '" \o n \o "}\\n"
\* a call that has ended: [n, t, time, kids]
Enter(t, n, dt) == /\ made' = made + 1 /\ now' = now + dt /\ open' = Append(open, [n |-> n, t |-> t, start |-> now + dt, guid |-> made, kids |-> <<>>])
                   /\ text' = text \o Record(now + dt, made, "enter", t, n) /\ UNCHANGED done
Exit(dt) == open # <<>> /\ now' = now + dt /\ UNCHANGED made /\ LET c == open[Len(open)] e == [n |-> c.n, t |-> c.t, time |-> now + dt - c.start, kids |-> c.kids] k == Len(open) IN
   /\ text' = text \o Record(now + dt, c.guid, "exit", c.t, c.n)
   /\ open' = IF k = 1 THEN <<>> ELSE [SubSeq(open, 1, k - 1) EXCEPT ![k - 1].kids = Append(@, e)]
   /\ done' = IF k = 1 THEN Append(done, e) ELSE done
\* ---- what is reported
RECURSIVE Tree(_), Flat(_), Show(_, _)
Tree(e) == Paren(<<e.t, e.n, Str(e.time)>> \o [i \in 1..Len(e.kids) |-> Tree(e.kids[i])])
Flat(es) == IF es = <<>> THEN <<>> ELSE <<es[1]>> \o Flat(es[1].kids) \o Flat(Tail(es))
Sum(es) == FoldLeft(LAMBDA x, e : x + e.time, 0, es)
Pad(s, n) == s \o JoinWith([i \in 1..(IF n > Len(s) THEN n - Len(s) ELSE 0) |-> " "], "")
PadL(s, n) == JoinWith([i \in 1..(IF n > Len(s) THEN n - Len(s) ELSE 0) |-> " "], "") \o s
Of(n, ty) == SelectSeq(Flat(done), LAMBDA e : e.n = n /\ (ty = "all" \/ e.t = ty))
Row(n, ty) == LET es == Of(n, ty) IN Pad(n, 20) \o " | " \o PadL(Str(Len(es)), 5) \o " | " \o PadL(Str(Sum(es)), 10) \o " | " \o Pad(Str(Sum(es) \div Len(es)), 10)
Shown(ty) == {n \in Names : Of(n, ty) # <<>>}
\* the rows are in some order: what is between the rules, as a list of lines
Rows(ty) == Q("(vrows '" \o ty \o ")", Paren(<<Str(3 + Cardinality(Shown(ty)))>>))
  \o FlattenSeq([i \in 1..Cardinality(Shown(ty)) |-> Q("(vrow? \"" \o Row(SetToSeq(Shown(ty))[i], ty) \o "\" '" \o ty \o ")", "#t")])
Heading == "(\"Function             | count | total time | avg time  \" \"~~~~~~~~~~~~~~~~~~~~~+~~~~~~~+~~~~~~~~~~~~+~~~~~~~~~~~\")"
\* the latest calls come first
Show(e, l) == JoinWith([i \in 1..(2 * l) |-> " "], "") \o e.n \o " (total: " \o Str(e.time) \o ", in nested calls: " \o Str(Sum(e.kids)) \o ", overhead: " \o Str(e.time - Sum(e.kids)) \o ")\\n"
  \o JoinWith([i \in 1..Len(e.kids) |-> Show(e.kids[Len(e.kids) + 1 - i], l + 1)], "")
All == JoinWith([i \in 1..Len(done) |-> Show(done[Len(done) + 1 - i], 0) \o "\\n"], "")
Asked == Q("(vput " \o File \o " \"" \o text \o "\")", "*") \o Q("(load-profile " \o File \o ")", "*") \o Q("(vtrees call-trees)", Paren([i \in 1..Len(done) |-> Tree(done[i])]))
  \o Rows("all") \o Rows("func") \o Rows("prim") \o Rows("form") \o Q("(vhead 'all)", Heading) \o Q("(cadr (vshow (print-tree)))", "\"" \o All \o "\"") \o Q("(vtrees call-trees)", Paren([i \in 1..Len(done) |-> Tree(done[i])]))
Prelude == << <<"(begin (vclear) (load \"" \o LIB \o "\") 1)", "1", "g">>,
  <<"(begin (define (vtrees l) (let loop ((l l) (r '())) (if (null? l) r (loop (cdr l) (cons (cons (type: (car l)) (cons (name: (car l)) (cons (time: (car l)) (vtrees (children: (car l)))))) r))))) 1)", "1">>,
  <<"(begin (define (vlines ty) (string-split (cadr (vshow (by-function ty))) \"\\n\")) (define (vrows ty) (list (length (filter (lambda (l) (> (string-length l) 0)) (vlines ty))))) (define (vrow? r ty) (if (memq r (vlines ty)) #t #f)) (define (vhead ty) (sublist (vlines ty) 1 3)) 1)", "1">> >>
Init == open = <<>> /\ done = <<>> /\ now = 100 /\ made = 0 /\ text = "" /\ reported = FALSE /\ steps = Prelude
Small == ~RANDOM /\ ~reported /\ UNCHANGED <<reported, steps>> /\
   \/ made < MAXNODES /\ \E t \in Types, n \in Names : Enter(t, n, made * 2 + 1)
   \/ Exit(Len(done) + 3)
Ask == ~RANDOM /\ ~reported /\ made > 0 /\ reported' = TRUE /\ steps' = steps \o Asked /\ UNCHANGED <<open, done, now, made, text>>
Many == RANDOM /\ UNCHANGED <<reported, steps>> /\ \E k \in {RE(1..20)}, t \in {RE(Types)}, n \in {RE(Names)}, dt \in {RE({0, 1, 7, 350, 99999})} :
   IF (k > 9 \/ Len(open) > 5) /\ open # <<>> THEN Exit(dt) ELSE Enter(t, n, dt)
AskMany == RANDOM /\ made > 0 /\ steps' = steps \o Asked /\ reported' = TRUE /\ open' = <<>> /\ done' = <<>> /\ now' = 100 /\ made' = 0 /\ text' = ""
Next == Small \/ Ask \/ (IF RANDOM THEN \E j \in {RE(1..30)} : IF j = 1 /\ made > 0 THEN AskMany ELSE Many ELSE FALSE)
Spec == Init /\ [][Next]_vars
\* ---- the design: every call that has ended is in one tree, and its time covers those within it
RECURSIVE Covers(_)
Covers(e) == e.time >= Sum(e.kids) /\ \A i \in 1..Len(e.kids) : Covers(e.kids[i])
Whole == Len(Flat(done)) + Len(open) + Len(Flat(FlattenSeq([i \in 1..Len(open) |-> open[i].kids]))) = made
Timed == \A i \in 1..Len(done) : Covers(done[i])
View == <<open, done, now, made, reported>>
Bounded == TRUE
BoundedNext == TRUE
EmitEdge == RANDOM \/ ~(reported' /\ ~reported) \/ EmitSteps("e", steps')
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
