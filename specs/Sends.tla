--------------------------------- MODULE Sends --------------------------------
(* Sending to a frame and to what it inherits from, in every form: the receiver is  *)
(* self, the arguments are evaluated once each in order, an argument that fails, a   *)
(* slot that is missing or no function, a wrong number of arguments or a last        *)
(* argument of an apply that is no list makes the send fail, and nothing changes.    *)
EXTENDS Emit, Integers, FiniteSets, SequencesExt
CONSTANTS RANDOM, DEPTH, MAXARGS
VARIABLES c, steps
vars == <<c, steps>>
RE(S) == RandomElement(S)
Q(src, e) == << <<src, e>> >>
Slots == {"rest", "one", "two", "five", "none", "frame"}
Fn(k) == CASE k = "rest" -> "m: vrest" [] k = "one" -> "m: (lambda (x) (list (tag: self) x))" [] k = "two" -> "m: (lambda (x y) (list (tag: self) x y))" [] k = "five" -> "m: 5" [] k = "frame" -> "m: {a: 1}" [] OTHER -> "n: 5"
Takes(k, n) == CASE k = "rest" -> TRUE [] k = "one" -> n = 1 [] k = "two" -> n = 2 [] OTHER -> FALSE
Callable(k) == k \in {"rest", "one", "two"}
Forms == {"send", "short", "apply", "send-super", "short-super", "apply-super"}
Super(f) == f \in {"send-super", "short-super", "apply-super"}
Apply(f) == f \in {"apply", "apply-super"}
\* arguments: TRUE fails after it was reached
Arg(as, i) == IF as[i] THEN "(begin (vprobe " \o Str(i) \o ") (nowhere))" ELSE "(vprobe " \o Str(i) \o ")"
ArgsSrc(as) == JoinWith(<<"">> \o [i \in 1..Len(as) |-> Arg(as, i)], " ")
Lasts == {"two", "empty", "five", "bad", "fails"}
LastArg(x) == CASE x = "two" -> " (list (vprobe 91) (vprobe 92))" [] x = "empty" -> " '()" [] x = "five" -> " 5" [] x = "bad" -> " \"(1 2)\"" [] x = "fails" -> " (list (vprobe 91) (nowhere))" [] OTHER -> ""
Call2(f, as, x) == (CASE f = "send" -> "(send ch m:" [] f = "short" -> "(m:> ch" [] f = "apply" -> "(apply-slot ch m:" [] f = "send-super" -> "(send-super m:" [] f = "short-super" -> "(m:^" [] OTHER -> "(apply-slot-super m:") \o ArgsSrc(as) \o LastArg(x) \o ")"
\* where the function is: in a parent, or in the parent of a parent; for the forms that are not super also in the frame itself, which hides another
Wheres == {"parent", "grand", "own"}
Frames(k, w) == "(define gp {" \o (IF w = "grand" THEN Fn(k) ELSE "m: vwrong") \o " tag: 'gp}) (define pa {" \o (CASE w = "parent" -> Fn(k) \o " " [] w = "own" -> "m: vwrong " [] OTHER -> "") \o (IF w = "grand" \/ k # "none" THEN "p*: gp " ELSE "") \o "tag: 'pa}) (define ch {" \o (IF w = "own" THEN Fn(k) \o " " ELSE "")
  \o (IF w = "own" /\ k = "none" THEN "" ELSE "p*: pa ") \o "tag: 'ch})"
First2(as) == IF \E i \in 1..Len(as) : as[i] THEN CHOOSE i \in 1..Len(as) : as[i] /\ \A j \in 1..(i - 1) : ~as[j] ELSE 0
Values(as, x) == [i \in 1..Len(as) |-> Str(i)] \o (IF x = "two" THEN <<"91", "92">> ELSE <<>>)
Ok(k, as, x) == Callable(k) /\ First2(as) = 0 /\ x \in {"", "two", "empty"} /\ Takes(k, Len(Values(as, x)))
Result(k, as, x) == IF Ok(k, as, x) THEN Paren(<<"ch">> \o Values(as, x)) ELSE "!E"
\* what was evaluated: left open when the send was to fail anyway
Log(k, as, x) == IF ~Callable(k) \/ ~Takes(k, Len(as) + (IF x \in {"two", "fails"} THEN 2 ELSE 0)) THEN "?V" ELSE IF First2(as) # 0 THEN Paren([i \in 1..First2(as) |-> Str(i)]) ELSE Paren([i \in 1..Len(as) |-> Str(i)] \o (CASE x = "two" -> <<"91", "92">> [] x = "fails" -> <<"91">> [] OTHER -> <<>>))
State(k, w) == "(list (equal? ch (clone ch)) (tag: ch) (tag: pa) (tag: gp) (has-slot? ch m:))"
Has(k, w) == k # "none"
Do(k, w, f, as, x) == LET call == Call2(f, as, x) IN
  Q("(begin " \o Frames(k, w) \o " 1)", "1") \o
  (IF Super(f) THEN Q("(begin (set-slot! ch q: (lambda () " \o call \o ")) (send ch q:))", Result(k, as, x)) ELSE Q(call, Result(k, as, x)))
  \o Q("(vlog)", Log(k, as, x)) \o Q(State(k, w), Paren(<<"#t", "ch", "pa", "gp", Bool(Has(k, w))>>))
Prelude == Q("(begin (vclear) (define gp 1) (define pa 1) (define ch 1) (define (vrest . r) (cons (tag: self) r)) (define (vwrong . r) 'wrong) 1)", "1")
Init == c = <<>> /\ steps = Prelude
Args(n) == UNION {[1..j -> BOOLEAN] : j \in 0..n}
\* super forms look past the frame itself
Fits(w, f) == Super(f) => w # "own"
Small == ~RANDOM /\ c = <<>> /\ \E k \in Slots, w \in Wheres, f \in Forms, as \in Args(MAXARGS) : Fits(w, f) /\ \E x \in (IF Apply(f) THEN Lasts ELSE {""}) :
   c' = <<k, w, f, as, x>> /\ steps' = steps \o Do(k, w, f, as, x)
Many == RANDOM /\ \E k \in {RE(Slots)}, w \in {RE(Wheres)}, f \in {RE(Forms)}, n \in {RE(0..5)}, bad \in {RE(0..9)} : Fits(w, f) /\ \E x \in {IF Apply(f) THEN RE({"two", "two", "empty"} \cup (IF bad < 5 THEN Lasts ELSE {})) ELSE ""} :
   \E as \in {[i \in 1..n |-> i = bad]} : c' = <<k, w, f, as, x>> /\ steps' = steps \o Do(k, w, f, as, x)
Keep == RANDOM /\ UNCHANGED <<c, steps>>
Next == Small \/ Many \/ Keep
Spec == Init /\ [][Next]_vars
\* ---- the design: a send that succeeds has evaluated every argument
Whole == c # <<>> => (Ok(c[1], c[4], c[5]) => Log(c[1], c[4], c[5]) = Paren(Values(c[4], c[5])))
View == c
Bounded == TRUE
BoundedNext == TRUE
EmitEdge == RANDOM \/ c' = c \/ EmitSteps("e", steps')
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
