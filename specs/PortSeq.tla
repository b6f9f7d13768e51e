------------------------------ MODULE PortSeq -------------------------------
(* Ports: files are sequences of tokens, what a token sequence denotes is the   *)
(* reader's grammar; every port has its own position.  Output goes to the end   *)
(* of the file of the port it is written to, in the order written.              *)
EXTENDS Values, FiniteSets
CONSTANTS NF, NP, RANDOM, DEPTH, MAXREAD
VARIABLES files,   \* file -> <<exists, tokens>>, token <<kind, text in a literal, value, text in canonical form>>
          ports,   \* port -> <<state, file, tokens still to read or <<>>, open-for-append>>; state: none in out shut lost
          pend,    \* port -> tokens of a datum of which only the beginning has been written
          steps
vars == <<files, ports, pend, steps>>
RE(S) == RandomElement(S)
R == INSTANCE Reader WITH MODE <- "", ALPHA <- "", MAXLEN <- 0, DEPTH <- 0, toks <- steps, steps <- steps
Fs == 1..NF
Ps == 1..NP
Pv(p) == "p" \o Str(p)
Fn(f) == "(vfn " \o Str(f) \o ")"
\* ---- tokens
Br(t) == <<t, t, VNil, t>>
A(t, v) == <<"atom", t, v, t>>
AS(t) == <<"atom", "\\\"" \o t \o "\\\"", VS(t), "\\\"" \o t \o "\\\"">>
Atoms == << A("1", VI("1")), A("-20", VI("-20")), A("300", VI("300")), A("a", VY("a")), A("b-c", VY("b-c")), A("k:", VY("k:")), A("1.5", VF("1.5")), A("#t", VB("#t")), AS("s"), AS(""), AS("a b ; c"), AS("(") >>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
RECURSIVE RD(_)
RD(d) == LET k == IF d = 0 THEN 1 ELSE RE(1..7) IN
  CASE k <= 3 -> <<Atoms[RE(1..Len(Atoms))]>>
    [] k = 4 -> LET n == RE(0..3) IN <<Br("(")>> \o Flat([i \in 1..n |-> RD(d - 1)]) \o <<Br(")")>>
    [] k = 5 -> LET n == RE(0..3) IN <<Br("[")>> \o [i \in 1..n |-> LET b == Str(RE(0..255)) IN A(b, VI(b))] \o <<Br("]")>>
    [] k = 6 -> <<Br("'")>> \o RD(d - 1)
    [] k = 7 -> <<Br("(")>> \o RD(d - 1) \o <<Br(".")>> \o RD(d - 1) \o <<Br(")")>>
Gaps == << <<" ", " ">>, <<"\\n", "\\n">>, <<" ; c\\n", " ; c\\n">>, <<"\\n\\n  ", "\\n\\n  ">> >>
\* a gap is a token the grammar does not see
Gap(g) == <<"gap", Gaps[g][1], VNil, Gaps[g][2]>>
Seen(ts) == SelectSeq(ts, LAMBDA t : t[1] # "gap")
TextOf(ts) == JoinWith([i \in 1..Len(ts) |-> ts[i][4]], "")
Spaced(ts) == Flat([i \in 1..Len(ts) |-> <<ts[i], Gap(IF RANDOM THEN RE(1..4) ELSE 1)>>])
\* written data: printed as one token
RV(d) == LET RECURSIVE V(_) V(e) == LET k == IF e = 0 THEN RE(1..4) ELSE RE(1..7) IN
           CASE k = 1 -> VI(Str(RE(-5..300))) [] k = 2 -> VY(<<"a", "b-c", "zz">>[RE(1..3)]) [] k = 3 -> VS(<<"", "x", "a b">>[RE(1..3)]) [] k = 4 -> VB("#f")
             [] k = 5 -> VBytes([i \in 1..RE(0..3) |-> RE(0..255)]) [] OTHER -> VList([i \in 1..RE(0..3) |-> V(e - 1)]) IN V(d)
RECURSIVE Lit2(_), Lit2Tail(_)
\* Text with the quotes of strings escaped: inside canonical forms
Lit2(v) == CASE T(v) = "s" -> "\\\"" \o v[2] \o "\\\"" [] T(v) = "c" -> "(" \o Lit2(v[2]) \o Lit2Tail(v[3]) [] OTHER -> Text(v)
Lit2Tail(v) == CASE T(v) = "n" -> ")" [] T(v) = "c" -> " " \o Lit2(v[2]) \o Lit2Tail(v[3]) [] OTHER -> " . " \o Lit2(v) \o ")"
Printed(v) == <<"atom", Lit2(v), v, Lit2(v)>>

Plain(ts) == Flat([i \in 1..Len(ts) |-> <<ts[i], Gap(1)>>])
F0(f) == CASE f = 1 /\ ~RANDOM -> <<TRUE, Plain(<<Atoms[1], Atoms[4]>>)>> [] f = 1 -> <<TRUE, Plain(<<Atoms[1], Atoms[4], Br("("), Atoms[9], Br(")")>>)>> [] f = 2 -> <<TRUE, Plain(<<Br("'"), Atoms[4], Atoms[3]>>)>> [] f = 3 -> <<TRUE, <<>> >> [] OTHER -> <<FALSE, <<>> >>
Lit0(ts) == JoinWith([i \in 1..Len(ts) |-> ts[i][2]], "")
Fill(f) == <<"(begin (let ((o (open-output-file " \o Fn(f) \o "))) (write-string \"" \o Lit0(F0(f)[2]) \o "\" o) (close-port o)) 1)", "1">>
Setup == << <<"(begin (vclear) (define p0 '()) 1)", "1">>, <<"(begin " \o JoinWith([p \in Ps |-> "(define " \o Pv(p) \o " '())"], " ") \o " 1)", "1">> >>
         \o [i \in 1..Cardinality({f \in Fs : F0(f)[1]}) |-> Fill(i)]
Init == /\ files = [f \in Fs |-> F0(f)] /\ ports = [p \in Ps |-> <<"none", 0, <<>>, FALSE>>] /\ pend = [p \in Ps |-> <<>>]
        /\ steps = Setup
Q(src, exp) == steps' = Append(steps, <<src, exp>>)
St(p) == ports[p][1]
FileOf(p) == ports[p][2]
Readers(f) == {p \in Ps : St(p) \in {"in", "lost"} /\ FileOf(p) = f}
Writers(f) == {p \in Ps : St(p) = "out" /\ FileOf(p) = f}
Pick(S) == IF RANDOM /\ S # {} THEN {RE(S)} ELSE S
\* a variable is given another port only when the one it held was closed, so that files stay as the model has them
OpenIn == \E p \in Pick(Ps), f \in Pick(Fs) : St(p) \in {"none", "shut"} /\ Writers(f) = {} /\
   IF files[f][1] THEN /\ ports' = [ports EXCEPT ![p] = <<"in", f, Seen(files[f][2]), FALSE>>] /\ UNCHANGED <<files, pend>>
                       /\ Q("(begin (set! " \o Pv(p) \o " (open-input-file " \o Fn(f) \o ")) (port? " \o Pv(p) \o "))", "#t")
   ELSE UNCHANGED <<files, ports, pend>> /\ Q("(open-input-file " \o Fn(f) \o ")", "!E")
OpenOut == \E p \in Pick(Ps), f \in Pick(Fs), k \in Pick({1, 2, 3}) : St(p) \in {"none", "shut"} /\ Readers(f) = {} /\ (Writers(f) = {} \/ (k = 3 /\ \A o \in Writers(f) : ports[o][4] /\ pend[o] = <<>>)) /\
   /\ ports' = [ports EXCEPT ![p] = <<"out", f, <<>>, k = 3>>] /\ pend' = [pend EXCEPT ![p] = <<>>]
   /\ files' = [files EXCEPT ![f] = <<TRUE, IF k = 3 THEN files[f][2] ELSE <<>> >>]
   /\ Q("(begin (set! " \o Pv(p) \o " (open-output-file " \o Fn(f) \o (<<"", " #f", " #t">>[k]) \o ")) (port? " \o Pv(p) \o "))", "#t")
Close == \E p \in Pick(Ps) : St(p) \in {"in", "out", "lost"} /\ pend[p] = <<>> /\ ports' = [ports EXCEPT ![p] = <<"shut", 0, <<>>, FALSE>>] /\ UNCHANGED <<files, pend>> /\ Q("(begin (close-port " \o Pv(p) \o ") 1)", "1")
Read == \E p \in Pick(Ps), k \in Pick({1, 2}) : St(p) = "in" /\ UNCHANGED <<files, pend>> /\
   LET q == R!Read(ports[p][3]) src == IF k = 1 THEN "(read " \o Pv(p) \o ")" ELSE "(let ((r (read " \o Pv(p) \o "))) (list (eof-object? r) (if (eof-object? r) 'end r)))"
       Seen2(v, e) == IF k = 1 THEN v ELSE Paren(<<e, v>>) IN
   CASE q[1] = "ok" -> ports' = [ports EXCEPT ![p][3] = q[3]] /\ Q(src, Seen2(Canon(q[2]), "#f"))
     [] q[1] = "eof" -> UNCHANGED ports /\ Q(IF k = 1 THEN "(eof-object? (read " \o Pv(p) \o "))" ELSE src, IF k = 1 THEN "#t" ELSE "(#t end)")
     [] OTHER -> ports' = [ports EXCEPT ![p] = <<"lost", FileOf(p), <<>>, FALSE>>] /\ Q(src, IF q[1] = "err" THEN "!E" ELSE "*")
\* what has been written is what the file holds, also before the port is closed
Look == \E f \in Pick(Fs) : UNCHANGED <<files, ports, pend>> /\ Q("(vfile " \o Str(f) \o ")", IF files[f][1] THEN "\"" \o TextOf(files[f][2]) \o "\"" ELSE "!E")
Dir == UNCHANGED <<files, ports, pend>> /\ Q("(length (list-directory \".\" (vfn \"*\")))", Str(Cardinality({f \in Fs : files[f][1]})))
Put(p, ts) == files' = [files EXCEPT ![FileOf(p)][2] = @ \o ts]
CanWrite(p) == St(p) = "out" /\ \A o \in Writers(FileOf(p)) : o = p \/ pend[o] = <<>>
Write == \E p \in Pick(Ps) : CanWrite(p) /\ pend[p] = <<>> /\ UNCHANGED <<ports, pend>> /\
   \E v \in {IF RANDOM THEN RV(3) ELSE VList(<<VI("7"), VY("w")>>)}, k \in Pick(IF RANDOM THEN 1..4 ELSE {1, 4}) :
     LET m == Make(v, 1) IN
     CASE k = 1 -> Put(p, <<Printed(v), Gap(2)>>) /\ Q("(begin (write " \o m \o " " \o Pv(p) \o ") (newline " \o Pv(p) \o ") 1)", "1")
       [] k = 2 -> Put(p, <<Printed(v), Gap(1)>>) /\ Q("(begin (write-string (format #f \"~S \" " \o m \o ") " \o Pv(p) \o ") 1)", "1")
       [] k = 3 -> Put(p, <<Printed(v), Gap(2)>>) /\ Q("(begin (format " \o Pv(p) \o " \"~S~%\" " \o m \o ") 1)", "1")
       [] k = 4 -> \E w \in {IF RANDOM THEN RE(1..3) ELSE 1} : LET a == <<"8", "40", "255">>[w] bs == <<"56", "52 48", "50 53 53">>[w] IN
                   Put(p, <<A(a, VI(a)), Gap(1)>>) /\ Q("(begin (write-bytes [" \o bs \o " 32] " \o Pv(p) \o ") 1)", "1")
\* the text of a datum in several pieces
Begin == RANDOM /\ \E p \in Pick(Ps) : CanWrite(p) /\ pend[p] = <<>> /\ \E ts \in {Spaced(RD(3))} : pend' = [pend EXCEPT ![p] = ts] /\ UNCHANGED <<files, ports, steps>>
Piece == RANDOM /\ \E p \in Pick({q \in Ps : pend[q] # <<>>}) : \E n \in {RE(1..Len(pend[p]))} :
   LET ts == SubSeq(pend[p], 1, n) IN Put(p, ts) /\ pend' = [pend EXCEPT ![p] = SubSeq(@, n + 1, Len(@))] /\ UNCHANGED ports /\ Q("(begin (write-string \"" \o Lit0(ts) \o "\" " \o Pv(p) \o ") 1)", "1")
\* a text that is not a sequence of data
Spoil == RANDOM /\ \E p \in Pick(Ps) : CanWrite(p) /\ pend[p] = <<>> /\ RE(1..4) = 1 /\ \E t \in {RE({"(", "[", "]", "}", "'"})} : Put(p, <<Br(t), Gap(1)>>) /\ UNCHANGED <<ports, pend>> /\ Q("(begin (write-string \"" \o t \o " \" " \o Pv(p) \o ") 1)", "1")
Misuse == \E p \in Pick(Ps), k \in Pick(1..9) : UNCHANGED <<files, ports, pend>> /\ St(p) # "lost" /\
   LET a == Pv(p) IN
   IF k <= 5 /\ St(p) \in {"in", "shut", "none"} THEN Q(<<"(write 1 " \o a \o ")", "(write-string \"x\" " \o a \o ")", "(newline " \o a \o ")", "(write-bytes [1] " \o a \o ")", IF St(p) = "none" THEN "(format '() \"x\")" ELSE "(format " \o a \o " \"x\")">>[k], "!E")
   ELSE IF k = 6 /\ St(p) \in {"out", "shut", "none"} THEN Q("(read " \o a \o ")", "!E")
   ELSE IF k = 7 /\ St(p) \in {"in", "out"} THEN Q("(list (on-error (write-string 5 " \o a \o ") (lambda (e) 'e)) (on-error (write-bytes '(1) " \o a \o ") (lambda (e) 'e)))", "(e e)")
   ELSE IF k = 8 THEN Q("(list (on-error (open-input-file 'a) (lambda (e) 'e)) (on-error (open-output-file 5) (lambda (e) 'e)) (on-error (open-input-file \"\") (lambda (e) 'e)) (on-error (open-output-file \"verif-no-such-dir/x\") (lambda (e) 'e)) (on-error (read 5) (lambda (e) 'e)) (on-error (close-port \"x\") (lambda (e) 'e)))", "(e e e e e e)")
   ELSE Q("(list (port? " \o a \o ") (eof-object? " \o a \o ") (eof-object? '()) (eof-object? 'eof))", Paren(<<Bool(St(p) # "none"), "#f", "#f", "#f">>))
\* several processes read one port: every datum goes to exactly one of them
Share == RANDOM /\ \E n \in {RE(1..40)}, k \in {RE(2..4)} : UNCHANGED <<files, ports, pend>> /\
   Q("(let* ((o (open-output-file (vfn 'share)))) (do ((i 1 (+ i 1))) ((> i " \o Str(n) \o ") 1) (write i o) (newline o)) (close-port o) (let* ((in (open-input-file (vfn 'share))) (job (lambda (p) (let loop ((r (read in)) (acc '())) (if (eof-object? r) acc (loop (read in) (cons r acc)))))) (ps (map (lambda (i) (fork job)) (interval 1 " \o Str(k) \o "))) (got (sort (apply append (map join ps)) <))) (close-port in) (vrm 'share) (list (length got) (equal? got (interval 1 " \o Str(n) \o ")))))",
     Paren(<<Str(n), "#t">>))
\* several processes write to one port: no datum is torn or lost
ShareOut == RANDOM /\ \E n \in {RE(1..15)}, k \in {RE(2..4)} : UNCHANGED <<files, ports, pend>> /\
   Q("(let* ((o (open-output-file (vfn 'share))) (job (lambda (p b) (do ((i 1 (+ i 1))) ((> i " \o Str(n) \o ") 1) (write-string (str (+ i b) \" \") o)))) (ps (map (lambda (i) (fork job (* i 100))) (interval 1 " \o Str(k) \o ")))) (for-each join ps) (close-port o) (let* ((in (open-input-file (vfn 'share))) (got (let loop ((r (read in)) (acc '())) (if (eof-object? r) acc (loop (read in) (cons r acc)))))) (close-port in) (vrm 'share) (map (lambda (b) (equal? (reverse (filter (lambda (x) (== (quotient x 100) b)) got)) (interval (+ 1 (* b 100)) (+ " \o Str(n) \o " (* b 100))))) (interval 1 " \o Str(k) \o "))))",
     Paren([i \in 1..k |-> "#t"]))
\* load evaluates every form of a file in order
Load == RANDOM /\ \E n \in {RE(0..5)} : \E ks \in {[i \in 1..n |-> RE(1..5)]} : UNCHANGED <<files, ports, pend>> /\
   LET forms == [i \in 1..n |-> CASE ks[i] = 1 -> "(set! acc (cons " \o Str(i) \o " acc))" [] ks[i] = 2 -> "; (set! acc 'no)\\n" [] ks[i] = 3 -> "\\\"text\\\"" [] ks[i] = 4 -> "()" [] ks[i] = 5 -> "(define " \o "d" \o Str(i) \o " acc)"]
       RECURSIVE Acc(_) Acc(i) == IF i = 0 THEN <<>> ELSE IF ks[i] = 1 THEN <<Str(i)>> \o Acc(i - 1) ELSE Acc(i - 1) IN
   steps' = steps \o << <<"(begin (define acc '()) (define o (open-output-file (vfn 'load))) (write-string \"(define acc '()) " \o JoinWith(forms, "\\n") \o "\\n(vprobe acc)\" o) (close-port o) (load (vfn 'load)) (vrm 'load) (car (vlog)))", Paren(Acc(n))>> >>
Next == OpenIn \/ OpenOut \/ Close \/ Read \/ Look \/ Dir \/ Write \/ Begin \/ Piece \/ Spoil \/ Misuse \/ (RANDOM /\ RE(1..10) = 1 /\ (Share \/ ShareOut \/ Load))
Spec == Init /\ [][Next]_vars
\* ---- the design: a port's position only moves over what its file holds; nobody reads a file that is being written
Positions == \A p \in Ps : St(p) = "in" => Len(ports[p][3]) <= Len(Seen(files[FileOf(p)][2])) /\ ports[p][3] = SubSeq(Seen(files[FileOf(p)][2]), Len(Seen(files[FileOf(p)][2])) - Len(ports[p][3]) + 1, Len(Seen(files[FileOf(p)][2])))
Apart == \A f \in Fs : Readers(f) = {} \/ Writers(f) = {}
View == <<files, ports>>
Bounded == TRUE
BoundedNext == \A f \in Fs : Len(files'[f][2]) <= MAXREAD
\* ---- what every behaviour ends with: the open writers write by turns, the readers read to their end, and every file is looked at
Complete(pts, pd, p) == pts[p][1] = "out" /\ \A o \in Ps : pts[o][1] = "out" /\ pts[o][2] = pts[p][2] => pd[o] = <<>>
Turns(pts, pd) == LET s == SelectSeq([i \in Ps |-> i], LAMBDA p : Complete(pts, pd, p)) IN s \o (IF s = <<>> THEN <<>> ELSE <<s[1]>>) \o s
Tok(i) == "t" \o Str(i) \o " "
RECURSIVE Texts(_, _, _, _)
Texts(pts, f, i, t) == IF i > Len(t) THEN "" ELSE (IF pts[t[i]][2] = f THEN Tok(i) ELSE "") \o Texts(pts, f, i + 1, t)
RECURSIVE ToEnd(_, _)
ToEnd(p, ts) == LET r == CHOOSE x \in {R!Read(ts)} : TRUE IN
  CASE r[1] = "ok" -> << <<"(read " \o Pv(p) \o ")", Canon(r[2])>> >> \o ToEnd(p, r[3])
    [] r[1] = "eof" -> << <<"(list (eof-object? (read " \o Pv(p) \o ")) (eof-object? (read " \o Pv(p) \o ")))", "(#t #t)">> >>
    [] r[1] = "err" -> << <<"(read " \o Pv(p) \o ")", "!E">> >>
    [] OTHER -> <<>>
Tidy(fs, pts, pd) == LET t == CHOOSE x \in {Turns(pts, pd)} : TRUE IN
  [i \in 1..Len(t) |-> <<"(begin (write-string \"" \o Tok(i) \o "\" " \o Pv(t[i]) \o ") 1)", "1">>]
  \o [f \in Fs |-> <<"(vfile " \o Str(f) \o ")", IF fs[f][1] THEN "\"" \o TextOf(fs[f][2]) \o Texts(pts, f, 1, t) \o "\"" ELSE "!E">>]
  \o Flat([p \in Ps |-> IF pts[p][1] = "in" THEN ToEnd(p, pts[p][3]) ELSE <<>>])
\* (the next state as values: what is computed from it is then computed once)
Ended == \E fs \in {files'}, pts \in {ports'}, pd \in {pend'}, ss \in {steps'} : EmitSteps("e", ss \o Tidy(fs, pts, pd))
EmitEdge == Ended
EmitPath == IF Len(steps') >= DEPTH /\ Len(steps) < DEPTH THEN Ended ELSE TRUE
=============================================================================
