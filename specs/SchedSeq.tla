------------------------------ MODULE SchedSeq ------------------------------
(* Scheduled tasks used by one process: tasks far in the future, tasks due at    *)
(* once, forked processes; abandoned, reset, joined, woken.                      *)
EXTENDS Emit
CONSTANTS NP, DEPTH, MISUSE, SLOW
VARIABLES st,      \* "none", "far" (pending), "done", "gone" (abandoned)
          how,     \* "sched" or "fork"
          joined, token, steps
vars == <<st, how, joined, token, steps>>
P == 1..NP
S(i) == "s" \o Str(i)
N(i) == "n" \o Str(i)
F(i) == "(lambda (p a . r) (atomic-add! " \o N(i) \o " 1) (list a r))"
OK == "\"OK\""
Late == "\"task was already completed or abandoned\""
Setup == [i \in P |-> <<"(begin (define " \o N(i) \o " (atomic)) (define " \o S(i) \o " '()) 1)", "1">>]
Init == st = [i \in P |-> "none"] /\ how = [i \in P |-> ""] /\ joined = [i \in P |-> FALSE] /\ token = [i \in P |-> FALSE] /\ steps = Setup
Do(src, exp) == steps' = Append(steps, <<src, exp>>)
Far(i) == /\ st[i] = "none" /\ st' = [st EXCEPT ![i] = "far"] /\ how' = [how EXCEPT ![i] = "sched"] /\ UNCHANGED <<joined, token>>
          /\ Do("(begin (set! " \o S(i) \o " (schedule 100000000 " \o F(i) \o " " \o Str(i) \o ")) (atomic-load " \o N(i) \o "))", "0")
\* one that is due at once, or after two milliseconds, and has been seen to run
Now(i) == \E d \in {"0", "2"} :
          /\ st[i] = "none" /\ st' = [st EXCEPT ![i] = "done"] /\ how' = [how EXCEPT ![i] = "sched"] /\ UNCHANGED <<joined, token>>
          /\ Do("(begin (set! " \o S(i) \o " (schedule " \o d \o " " \o F(i) \o " " \o Str(i) \o " 'x)) (do ((k 0 (+ k 1))) ((or (== (atomic-load " \o N(i) \o ") 1) (> k 20000)) (atomic-load " \o N(i) \o ")) (vsleep 500)))", "1")
Forked(i) == /\ st[i] = "none" /\ st' = [st EXCEPT ![i] = "done"] /\ how' = [how EXCEPT ![i] = "fork"] /\ UNCHANGED <<joined, token>>
          /\ Do("(begin (set! " \o S(i) \o " (fork " \o F(i) \o " " \o Str(i) \o " 'x)) 1)", "1")
Abandon(i) == /\ st[i] # "none" /\ UNCHANGED <<how, joined, token>> /\ st' = IF how[i] = "sched" /\ st[i] = "far" THEN [st EXCEPT ![i] = "gone"] ELSE st
              /\ Do("(abandon " \o S(i) \o ")", IF how[i] = "fork" THEN "!E" ELSE OK)
Reset(i) == /\ st[i] # "none" /\ UNCHANGED <<st, how, joined, token>>
            /\ Do("(reset-timeout " \o S(i) \o ")", IF how[i] = "fork" THEN "!E" ELSE IF st[i] = "far" THEN OK ELSE Late)
Join(i) == /\ st[i] \in {"done", "gone"} /\ joined' = [joined EXCEPT ![i] = TRUE] /\ UNCHANGED <<st, how, token>>
           /\ IF joined[i] THEN Do("(join " \o S(i) \o ")", "!E")
              ELSE IF st[i] = "gone" THEN Do("(list (join " \o S(i) \o ") (atomic-load " \o N(i) \o "))", "(() 0)")
              ELSE Do("(list (join " \o S(i) \o ") (atomic-load " \o N(i) \o "))", "((" \o Str(i) \o " (x)) 1)")
\* somebody is already waiting for a task when it is abandoned
JoinThenAbandon(i) == /\ st[i] = "far" /\ ~joined[i] /\ joined' = [joined EXCEPT ![i] = TRUE] /\ st' = [st EXCEPT ![i] = "gone"] /\ UNCHANGED <<how, token>>
           /\ Do("(let* ((flag (atomic)) (hp (fork (lambda (q) (let ((r (join " \o S(i) \o "))) (atomic-store! flag 1) r)))) (w (vsleep 1000)) (early (atomic-load flag)) (a (abandon " \o S(i) \o "))) (list early (join hp)))", "(0 ())")
Wake(i) == /\ st[i] # "none" /\ token' = [token EXCEPT ![i] = TRUE] /\ UNCHANGED <<st, how, joined>> /\ Do("(wake " \o S(i) \o ")", OK)
Sleep(i) == \E d \in {"0", "1"} :
            /\ st[i] # "none" /\ token' = [token EXCEPT ![i] = FALSE] /\ UNCHANGED <<st, how, joined>> /\ Do("(proc-sleep " \o S(i) \o " " \o d \o ")", Bool(token[i]))
\* a wake ends a long sleep
SleepWoken(i) == /\ st[i] # "none" /\ token' = [token EXCEPT ![i] = FALSE] /\ UNCHANGED <<st, how, joined>>
            /\ IF token[i] THEN Do("(proc-sleep " \o S(i) \o " 100000000)", "#t")
               ELSE Do("(let ((hp (fork (lambda (q) (proc-sleep " \o S(i) \o " 100000000))))) (vsleep 300) (wake " \o S(i) \o ") (join hp))", "#t")
\* a task that is reset again and again does not run, one that is left alone does; with times that are far apart
Postpone(i) == /\ SLOW /\ st[i] = "none" /\ st' = [st EXCEPT ![i] = "done"] /\ how' = [how EXCEPT ![i] = "sched"] /\ UNCHANGED <<joined, token>>
            /\ Do("(begin (set! " \o S(i) \o " (schedule 30 " \o F(i) \o " " \o Str(i) \o " 'x)) (let* ((t0 (vclock)) (a (vsleep 8000)) (r1 (reset-timeout " \o S(i) \o ")) (b (vsleep 8000)) (r2 (reset-timeout " \o S(i)
                  \o ")) (t1 (vclock)) (w (do ((k 0 (+ k 1))) ((or (== (atomic-load " \o N(i) \o ") 1) (> k 20000)) 1) (vsleep 500))) (t2 (vclock))) (if (string=? r2 \"OK\") (>= (- t2 t1) 29000) (>= (- t2 t0) 29000))))", "#t")
Misuse == /\ MISUSE /\ UNCHANGED <<st, how, joined, token>>
  /\ \E s \in {"(schedule)", "(schedule 1)", "(schedule 'a (lambda (p) 1))", "(schedule \"1\" (lambda (p) 1))", "(schedule 1.5 (lambda (p) 1))", "(schedule '() (lambda (p) 1))", "(schedule 0 car)", "(schedule 0 5)", "(schedule 0 '())",
               "(schedule 0 (lambda () 1))", "(schedule 0 (lambda (p a) 1))", "(schedule 0 (lambda (p) 1) 2)", "(schedule 0 (lambda (p a b . r) 1) 2)", "(schedule (lambda (p) 1) 0)",
               "(abandon 5)", "(abandon '())", "(abandon)", "(abandon (atomic))", "(abandon \"s1\")", "(reset-timeout 5)", "(reset-timeout (make-channel))", "(reset-timeout)", "(reset-timeout (lambda (p) 1))",
               "(abandon s1 s1)", "(wake)", "(wake 5)", "(wake '())", "(wake (atomic))", "(proc-sleep 5 1)", "(proc-sleep (atomic) 1)", "(proc-sleep s1)", "(proc-sleep (fork (lambda (p) 1)) 'a)", "(proc-sleep (fork (lambda (p) 1)) 1.5)",
               "(proc-sleep (fork (lambda (p) 1)) \"1\")", "(proc-sleep 1 (fork (lambda (p) 1)))"} : Do(s, "!E")
\* as many arguments as the function needs, and not one more
Exact == /\ MISUSE /\ UNCHANGED <<st, how, joined, token>>
         /\ Do("(list (join (schedule 1 (lambda (p . r) (list 'd r)))) (join (schedule 0 (lambda (p a . r) (list a r)) 4)) (join (schedule 0 (lambda (p a) (join p)) 4)))", "((d ()) (4 ()) ())")
Next == Exact \/ (\E i \in P : Far(i) \/ Now(i) \/ Forked(i) \/ Abandon(i) \/ Reset(i) \/ Join(i) \/ JoinThenAbandon(i) \/ Wake(i) \/ Sleep(i) \/ SleepWoken(i) \/ Postpone(i)) \/ Misuse
Spec == Init /\ [][Next]_vars
GoneStays == [][\A i \in P : st[i] \in {"gone", "done"} => st'[i] = st[i]]_vars
View == <<st, how, joined, token>>
Tidy == [i \in P |-> <<"(begin (if (nil? " \o S(i) \o ") 1 (on-error (abandon " \o S(i) \o ") (lambda (e) e))) 1)", "1">>]
        \o [i \in P |-> IF st'[i] = "done" THEN <<"(do ((k 0 (+ k 1))) ((or (== (atomic-load " \o N(i) \o ") 1) (> k 20000)) (atomic-load " \o N(i) \o ")) (vsleep 500))", "1">>
                        ELSE <<"(atomic-load " \o N(i) \o ")", "0">>]
Bounded == Len(steps) < NP + DEPTH
EmitEdge == EmitSteps("e", steps' \o Tidy)
EmitPath == IF Len(steps') = NP + DEPTH THEN EmitSteps("p", steps' \o Tidy) ELSE TRUE
=============================================================================
