-------------------------------- MODULE Emit --------------------------------
(* How behaviours leave TLC: one JSON line per behaviour, a sequence of       *)
(* <<Lisp source, expected outcome>> steps, for the replay harness.           *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Out == IOEnv.VERIF_OUT

EmitSteps(id, steps) ==
  Serialize(ToJson([id |-> id, s |-> steps]) \o "\n", Out,
    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

(* Rendering helpers *)
Str(n) == ToString(n)
RECURSIVE JoinWith(_, _)
JoinWith(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
                     ELSE ss[1] \o sep \o JoinWith(Tail(ss), sep)
Paren(ss) == "(" \o JoinWith(ss, " ") \o ")"       \* (a b c); () when empty
Call(f, args) == "(" \o f \o (IF args = <<>> THEN "" ELSE " " \o JoinWith(args, " ")) \o ")"
MapSeq(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
Bool(b) == IF b THEN "#t" ELSE "#f"
=============================================================================
