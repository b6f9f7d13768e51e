------------------------------ MODULE ChanSeq ------------------------------
(* Channels as one process sees them: the buffer of every channel, whether    *)
(* it is closed, and the result of every operation that does not have to      *)
(* wait.  Every transition is replayed on the real interpreter.               *)
EXTENDS Emit

CONSTANTS NCH,      \* number of channels
          CAPS,     \* capacities to explore
          MAXV,     \* number of values written in one behaviour
          DEPTH,    \* operations per behaviour
          FORKS,    \* TRUE: with helper processes that have to wait
          CLOSEMIN, \* no close before this step
          PHASE     \* > 0: alternate phases of mostly writing and mostly reading, to fill large buffers

VARIABLES cap, buf, closed, nextv, sent, got, steps

vars == <<cap, buf, closed, nextv, sent, got, steps>>
Ch == 1..NCH

Name(c) == "c" \o Str(c)
Def(c, k) == <<"(begin (define " \o Name(c) \o " (make-channel" \o (IF k = 0 /\ c % 2 = 1 THEN "" ELSE " " \o Str(k)) \o ")) 1)", "1">>

Init == /\ cap \in [Ch -> CAPS]
        /\ buf = [c \in Ch |-> <<>>]
        /\ closed = [c \in Ch |-> FALSE]
        /\ nextv = 1
        /\ sent = [c \in Ch |-> <<>>] /\ got = [c \in Ch |-> <<>>]
        /\ steps = [c \in Ch |-> Def(c, cap[c])]

Do(src, exp) == steps' = Append(steps, <<src, exp>>)

(* Values: distinguishable, of several kinds, including nil and #f *)
ValSrc(v) == CASE v % 5 = 1 -> Str(v)
               [] v % 5 = 2 -> "'(" \o Str(v) \o ")"
               [] v % 5 = 3 -> "\"s" \o Str(v) \o "\""
               [] v % 5 = 4 -> "'()"
               [] OTHER     -> "#f"
ValExp(v) == CASE v % 5 = 1 -> Str(v)
               [] v % 5 = 2 -> "(" \o Str(v) \o ")"
               [] v % 5 = 3 -> "\"s" \o Str(v) \o "\""
               [] v % 5 = 4 -> "()"
               [] OTHER     -> "#f"

Filling  == PHASE > 0 /\ (Len(steps) \div PHASE) % 3 = 0
Draining == PHASE > 0 /\ (Len(steps) \div PHASE) % 3 = 1

Write(c) ==          \* blocking write that need not wait (or an error on a closed channel)
  /\ nextv <= MAXV /\ ~Draining
  /\ IF closed[c] THEN /\ Do("(channel-write " \o Name(c) \o " " \o ValSrc(nextv) \o ")", "!E")
                       /\ UNCHANGED <<buf, sent>>
     ELSE /\ Len(buf[c]) < cap[c]
          /\ Do("(begin (" \o (IF nextv % 2 = 0 THEN "channel-write " \o Name(c) ELSE Name(c) \o "<-") \o " " \o ValSrc(nextv) \o ") 'ok)", "ok")
          /\ buf' = [buf EXCEPT ![c] = Append(@, nextv)]
          /\ sent' = [sent EXCEPT ![c] = Append(@, nextv)]
  /\ nextv' = nextv + 1
  /\ UNCHANGED <<cap, closed, got>>

TryWrite(c) ==
  /\ nextv <= MAXV /\ ~Draining
  /\ LET src == "(channel-try-write " \o Name(c) \o " " \o ValSrc(nextv) \o ")" IN
     IF closed[c] THEN Do(src, "!E") /\ UNCHANGED <<buf, sent>>
     ELSE IF Len(buf[c]) < cap[c]
          THEN Do(src, "#t") /\ buf' = [buf EXCEPT ![c] = Append(@, nextv)] /\ sent' = [sent EXCEPT ![c] = Append(@, nextv)]
          ELSE Do(src, "#f") /\ UNCHANGED <<buf, sent>>
  /\ nextv' = nextv + 1
  /\ UNCHANGED <<cap, closed, got>>

Read(c) ==           \* blocking read that need not wait
  /\ buf[c] # <<>> \/ closed[c]
  /\ ~Filling
  /\ LET src == IF Len(steps) % 2 = 0 THEN "(channel-read " \o Name(c) \o ")" ELSE "(<-" \o Name(c) \o ")" IN
     IF buf[c] # <<>> THEN /\ Do(src, "(" \o ValExp(Head(buf[c])) \o " #t)")
                           /\ buf' = [buf EXCEPT ![c] = Tail(@)]
                           /\ got' = [got EXCEPT ![c] = Append(@, Head(buf[c]))]
     ELSE Do(src, "(() #f)") /\ UNCHANGED <<buf, got>>
  /\ UNCHANGED <<cap, closed, nextv, sent>>

TryRead(c) ==
  /\ ~Filling
  /\ LET src == "(channel-try-read " \o Name(c) \o ")" IN
     IF buf[c] # <<>> THEN /\ Do(src, "(#t " \o ValExp(Head(buf[c])) \o " #t)")
                           /\ buf' = [buf EXCEPT ![c] = Tail(@)]
                           /\ got' = [got EXCEPT ![c] = Append(@, Head(buf[c]))]
     ELSE IF closed[c] THEN Do(src, "(#t () #f)") /\ UNCHANGED <<buf, got>>
     ELSE Do(src, "(#f () #t)") /\ UNCHANGED <<buf, got>>
  /\ UNCHANGED <<cap, closed, nextv, sent>>

Close(c) ==
  /\ Len(steps) >= CLOSEMIN
  /\ IF closed[c] THEN Do("(close-channel " \o Name(c) \o ")", "!E") /\ UNCHANGED closed
     ELSE Do("(begin (close-channel " \o Name(c) \o ") 'closed)", "closed") /\ closed' = [closed EXCEPT ![c] = TRUE]
  /\ UNCHANGED <<cap, buf, nextv, sent, got>>

(* Operations that have to wait, done by a helper process. `late` tells whether the helper was still      *)
(* waiting after a while, as it must be; the helper then goes on once its operation can take effect.     *)
Helper(body, while) ==
  "(let* ((flag (atomic 0)) (hp (fork (lambda (p) (let ((r (on-error " \o body \o " (lambda (e) 'err)))) (atomic-store! flag 1) r)))) "
  \o "(pause (vsleep 1500)) (late (atomic-load flag)) (here " \o while \o ")) (list late here (join hp)))"
PollUntil(expr, test) ==
  "(do ((r " \o expr \o " " \o expr \o ") (n 0 (+ n 1))) ((or " \o test \o " (> n 4000)) r) (vsleep 1000))"

WaitingWriter(c) ==   \* full buffer (or unbuffered): a writer waits until a read makes room
  /\ FORKS /\ ~closed[c] /\ Len(buf[c]) = cap[c] /\ nextv <= MAXV
  /\ LET all == Append(buf[c], nextv) IN
     /\ Do(Helper("(begin (channel-write " \o Name(c) \o " " \o ValSrc(nextv) \o ") 'w)", "(channel-read " \o Name(c) \o ")"),
           "(0 (" \o ValExp(Head(all)) \o " #t) w)")
     /\ buf' = [buf EXCEPT ![c] = Tail(all)]
     /\ sent' = [sent EXCEPT ![c] = Append(@, nextv)]
     /\ got' = [got EXCEPT ![c] = Append(@, Head(all))]
  /\ nextv' = nextv + 1 /\ UNCHANGED <<cap, closed>>

WaitingReader(c) ==   \* empty buffer: a reader waits until a write arrives
  /\ FORKS /\ ~closed[c] /\ buf[c] = <<>> /\ nextv <= MAXV
  /\ \E try \in BOOLEAN :
     Do(IF try THEN Helper("(channel-read " \o Name(c) \o ")",
                           PollUntil("(channel-try-write " \o Name(c) \o " " \o ValSrc(nextv) \o ")", "r"))
        ELSE Helper("(channel-read " \o Name(c) \o ")", "(begin (channel-write " \o Name(c) \o " " \o ValSrc(nextv) \o ") #t)"),
        "(0 #t (" \o ValExp(nextv) \o " #t))")
  /\ sent' = [sent EXCEPT ![c] = Append(@, nextv)] /\ got' = [got EXCEPT ![c] = Append(@, nextv)]
  /\ nextv' = nextv + 1 /\ UNCHANGED <<cap, closed, buf>>

TryTakesFromWaitingWriter(c) ==    \* unbuffered: a try-read succeeds once a writer is waiting
  /\ FORKS /\ ~closed[c] /\ cap[c] = 0 /\ nextv <= MAXV
  /\ Do(Helper("(begin (channel-write " \o Name(c) \o " " \o ValSrc(nextv) \o ") 'w)",
               PollUntil("(channel-try-read " \o Name(c) \o ")", "(car r)")),
        "(0 (#t " \o ValExp(nextv) \o " #t) w)")
  /\ sent' = [sent EXCEPT ![c] = Append(@, nextv)] /\ got' = [got EXCEPT ![c] = Append(@, nextv)]
  /\ nextv' = nextv + 1 /\ UNCHANGED <<cap, closed, buf>>

CloseOnWaiting(c) ==   \* a waiting writer gets an error, its value is not transferred; a waiting reader is told there is no more
  /\ FORKS /\ ~closed[c] /\ Len(steps) >= CLOSEMIN
  /\ \/ /\ Len(buf[c]) = cap[c] /\ nextv <= MAXV
        /\ Do(Helper("(begin (channel-write " \o Name(c) \o " " \o ValSrc(nextv) \o ") 'w)", "(begin (close-channel " \o Name(c) \o ") 'closed)"), "(0 closed err)")
     \/ /\ buf[c] = <<>>
        /\ Do(Helper("(channel-read " \o Name(c) \o ")", "(begin (close-channel " \o Name(c) \o ") 'closed)"), "(0 closed (() #f))")
  /\ closed' = [closed EXCEPT ![c] = TRUE]
  /\ nextv' = nextv + 1 /\ UNCHANGED <<cap, buf, sent, got>>

Wrong ==   \* misuse is an error and changes nothing
  /\ FORKS
  /\ \E s \in {"(channel-write 5 1)", "(channel-write '() 1)", "(channel-write (atomic) 1)", "(channel-read \"c1\")", "(channel-read (atomic 3))",
                "(channel-try-write 'c1 1)", "(channel-try-write [1 2] 1)", "(channel-try-read '(c1))", "(channel-try-read (atomic))", "(close-channel 7)", "(close-channel (atomic))",
                "(close-channel {a: 1})", "(make-channel -1)", "(make-channel \"2\")", "(make-channel 1.5)", "(make-channel 'a)", "(make-channel -9223372036854775808)",
                "(make-channel 1 2)", "(channel-write c1)", "(channel-read)", "(channel-read c1 2)", "(channel-try-read c1 1)", "(close-channel)",
                "(make-channel 9223372036854775807)", "(make-channel 4611686018427387904)"} : Do(s, "!E")
  /\ UNCHANGED <<cap, buf, closed, nextv, sent, got>>

Next == (\E c \in Ch : Write(c) \/ TryWrite(c) \/ Read(c) \/ TryRead(c) \/ Close(c) \/ WaitingWriter(c) \/ WaitingReader(c)
                      \/ TryTakesFromWaitingWriter(c) \/ CloseOnWaiting(c)) \/ Wrong

Spec == Init /\ [][Next]_vars

(* The properties *)
Fifo     == \A c \in Ch : sent[c] = got[c] \o buf[c]
Capacity == \A c \in Ch : Len(buf[c]) <= cap[c]
ClosedForGood == [][\A c \in Ch : closed[c] => closed'[c] /\ sent'[c] = sent[c]]_vars

(* Exhaustive run: one behaviour per transition of the (history-free) state graph *)
View == <<cap, buf, closed, nextv>>
Bounded == Len(steps) < NCH + DEPTH
EmitEdge == EmitSteps("e", steps')
(* Simulation run: one behaviour per simulated path *)
EmitPath == IF Len(steps') = NCH + DEPTH THEN EmitSteps("p", steps') ELSE TRUE
=============================================================================
