------------------------------ MODULE ChanConc ------------------------------
(* Channels used by several processes. A process calls an operation, the       *)
(* operation takes effect at one instant between its call and its return       *)
(* (a rendezvous: one instant for the writer and the reader), and returns.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Procs, Chans

VARIABLES cap, buf, closed, pend,
          sent, got        \* history: values accepted by / delivered from each channel

cvars == <<cap, buf, closed, pend, sent, got>>

Idle == [op |-> "none", c |-> 0, v |-> 0, st |-> "idle", res |-> ""]

CInit == /\ buf = [c \in Chans |-> <<>>] /\ closed = [c \in Chans |-> FALSE]
         /\ pend = [p \in Procs |-> Idle]
         /\ sent = [c \in Chans |-> <<>>] /\ got = [c \in Chans |-> <<>>]

CallOp(p, op, c, v) ==
  /\ pend[p].st = "idle"
  /\ pend' = [pend EXCEPT ![p] = [op |-> op, c |-> c, v |-> v, st |-> "called", res |-> ""]]
  /\ UNCHANGED <<cap, buf, closed, sent, got>>

Waiting(p, ops) == pend[p].st = "called" /\ pend[p].op \in ops
Done(p, r) == pend' = [pend EXCEPT ![p].st = "done", ![p].res = r]

ReadRes(op, v)  == IF op = "read" THEN "(" \o ToString(v) \o " #t)" ELSE "(#t " \o ToString(v) \o " #t)"
EndRes(op)      == IF op = "read" THEN "(() #f)" ELSE "(#t () #f)"
WriteRes(op)    == IF op = "write" THEN "()" ELSE "#t"

\* a write into the buffer
PutBuf(p) ==
  LET o == pend[p] IN
  /\ Waiting(p, {"write", "trywrite"}) /\ ~closed[o.c] /\ Len(buf[o.c]) < cap[o.c]
  /\ buf' = [buf EXCEPT ![o.c] = Append(@, o.v)]
  /\ sent' = [sent EXCEPT ![o.c] = Append(@, o.v)]
  /\ Done(p, WriteRes(o.op))
  /\ UNCHANGED <<cap, closed, got>>

\* a read from the buffer
TakeBuf(p) ==
  LET o == pend[p] IN
  /\ Waiting(p, {"read", "tryread"}) /\ buf[o.c] # <<>>
  /\ buf' = [buf EXCEPT ![o.c] = Tail(@)]
  /\ got' = [got EXCEPT ![o.c] = Append(@, Head(buf[o.c]))]
  /\ Done(p, ReadRes(o.op, Head(buf[o.c])))
  /\ UNCHANGED <<cap, closed, sent>>

\* on an unbuffered channel: a writer hands its value to a reader; one of the two has to be a blocking operation
Handover(p, q) ==
  LET w == pend[p]  r == pend[q] IN
  /\ p # q /\ Waiting(p, {"write", "trywrite"}) /\ Waiting(q, {"read", "tryread"})
  /\ w.c = r.c /\ cap[w.c] = 0 /\ ~closed[w.c]
  /\ w.op = "write" \/ r.op = "read"
  /\ sent' = [sent EXCEPT ![w.c] = Append(@, w.v)]
  /\ got' = [got EXCEPT ![w.c] = Append(@, w.v)]
  /\ pend' = [pend EXCEPT ![p].st = "done", ![p].res = WriteRes(w.op),
                          ![q].st = "done", ![q].res = ReadRes(r.op, w.v)]
  /\ UNCHANGED <<cap, buf, closed>>

\* a try operation that cannot take effect at once. Whether a called blocking partner has already
\* reached the channel is not observable from its call alone, so an unbuffered try may always fail.
FailTry(p) ==
  LET o == pend[p] IN
  /\ \/ Waiting(p, {"trywrite"}) /\ ~closed[o.c] /\ Len(buf[o.c]) = cap[o.c] /\ Done(p, "#f")
     \/ Waiting(p, {"tryread"}) /\ ~closed[o.c] /\ buf[o.c] = <<>> /\ Done(p, "(#f () #t)")
  /\ UNCHANGED <<cap, buf, closed, sent, got>>

\* operations on a closed channel
AfterClose(p) ==
  LET o == pend[p] IN
  /\ o.st = "called" /\ closed[o.c]
  /\ \/ o.op \in {"write", "trywrite", "close"} /\ Done(p, "!E")
     \/ o.op \in {"read", "tryread"} /\ buf[o.c] = <<>> /\ Done(p, EndRes(o.op))
  /\ UNCHANGED <<cap, buf, closed, sent, got>>

DoClose(p) ==
  LET o == pend[p] IN
  /\ Waiting(p, {"close"}) /\ ~closed[o.c]
  /\ closed' = [closed EXCEPT ![o.c] = TRUE]
  /\ Done(p, "()")
  /\ UNCHANGED <<cap, buf, sent, got>>

Effect(p) == \/ PutBuf(p) \/ TakeBuf(p) \/ FailTry(p) \/ AfterClose(p) \/ DoClose(p)
             \/ \E q \in Procs : Handover(p, q) \/ Handover(q, p)

Return(p) == /\ pend[p].st = "done"
             /\ pend' = [pend EXCEPT ![p] = Idle]
             /\ UNCHANGED <<cap, buf, closed, sent, got>>

(* The properties *)
Fifo     == \A c \in Chans : sent[c] = got[c] \o buf[c]           \* in order, nothing lost, nothing twice
Capacity == \A c \in Chans : Len(buf[c]) <= cap[c]
NoSpurious == \A c \in Chans : \A i, j \in 1..Len(sent[c]) : sent[c][i] = sent[c][j] => i = j
ClosedStays == [][\A c \in Chans : closed[c] => (closed'[c] /\ sent'[c] = sent[c])]_cvars
=============================================================================
