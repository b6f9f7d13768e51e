------------------------------ MODULE AtomSeq ------------------------------
(* Atomics as one process sees them. A value is <<h, l>>, standing for the     *)
(* 64-bit integer h * 2^40 + l with 0 <= l < 2^40 kept small, so that the        *)
(* whole 64-bit range (and its wrap-around) is covered with small numbers.      *)
EXTENDS Emit, Integers

CONSTANTS NAT, HI, HINEG, LO, DEPTH, MISUSE
VARIABLES val, steps
vars == <<val, steps>>
At == 1..NAT
Vals == (HI \cup {-x : x \in HINEG}) \X LO
Name(a) == "a" \o Str(a)
Src(v) == IF v[1] = 0 THEN Str(v[2]) ELSE "(+ (* " \o Str(v[1]) \o " 1099511627776) " \o Str(v[2]) \o ")"
Wrap(h) == ((h + 8388608) % 16777216) - 8388608
Plus(v, w) == <<Wrap(v[1] + w[1]), v[2] + w[2]>>

Init == /\ val \in [At -> {<<0, 0>>, <<0, 5>>}]
        /\ steps = [a \in At |-> <<"(begin (define " \o Name(a) \o " (atomic" \o (IF val[a] = <<0, 0>> THEN "" ELSE " " \o Src(val[a])) \o ")) 1)", "1">>]
Step(src, exp) == steps' = Append(steps, <<src, exp>>)
\* an operation whose result is the number v
Num(src, v) == IF v[1] = 0 THEN Step(src, Str(v[2])) ELSE Step("(let ((r " \o src \o ")) (and (integer? r) (== r " \o Src(v) \o ")))", "#t")
Set(a, v) == val' = [val EXCEPT ![a] = v]

Load(a)  == Num("(atomic-load " \o Name(a) \o ")", val[a]) /\ UNCHANGED val
Store(a, v) == Step("(begin (atomic-store! " \o Name(a) \o " " \o Src(v) \o ") 'ok)", "ok") /\ Set(a, v)
Add(a, v) == val[a][2] + v[2] >= 0 /\ Num("(atomic-add! " \o Name(a) \o " " \o Src(v) \o ")", Plus(val[a], v)) /\ Set(a, Plus(val[a], v))
Swap(a, v) == Num("(atomic-swap! " \o Name(a) \o " " \o Src(v) \o ")", val[a]) /\ Set(a, v)
Cas(a, o, v) == /\ Step("(atomic-compare-and-swap! " \o Name(a) \o " " \o Src(o) \o " " \o Src(v) \o ")", Bool(val[a] = o))
                /\ IF val[a] = o THEN Set(a, v) ELSE UNCHANGED val
Bad == {"\"1\"", "1.0", "'()", "#t", "'x", "(list 1)", "(atomic 1)"}
Misuse == /\ MISUSE
          /\ UNCHANGED val
          /\ \/ \E o \in {"atomic-load", "atomic-store!", "atomic-add!", "atomic-swap!", "atomic-compare-and-swap!"},
                   x \in {"5", "'()", "\"a1\"", "'a1", "(make-channel)", "[1 2]", "{a: 1}"} :
                  Step("(" \o o \o " " \o x \o (CASE o = "atomic-load" -> "" [] o = "atomic-compare-and-swap!" -> " 0 1" [] OTHER -> " 1") \o ")", "!E")
             \/ \E o \in {"atomic-store!", "atomic-add!", "atomic-swap!"}, b \in Bad, a \in At : Step("(" \o o \o " " \o Name(a) \o " " \o b \o ")", "!E")
             \/ \E b \in Bad, a \in At : \/ Step("(atomic-compare-and-swap! " \o Name(a) \o " " \o b \o " 7)", "!E")
                                          \/ Step("(atomic-compare-and-swap! " \o Name(a) \o " " \o Src(val[a]) \o " " \o b \o ")", "!E")
             \/ \E b \in Bad : Step("(atomic " \o b \o ")", "!E")

Op == \E a \in At : \/ Load(a) \/ \E v \in Vals : Store(a, v) \/ Add(a, v) \/ Swap(a, v) \/ \E o \in Vals \cup {val[a]} : Cas(a, o, v)
Next == Op \/ Misuse
Spec == Init /\ [][Next]_vars
TypeOK == val \in [At -> (-8388608..8388607) \X Int]
View == val
\* every behaviour ends by reading all atomics, so that an effect on the wrong one shows
LoadAll == [a \in At |-> IF val'[a][1] = 0 THEN <<"(atomic-load " \o Name(a) \o ")", Str(val'[a][2])>>
                         ELSE <<"(== (atomic-load " \o Name(a) \o ") " \o Src(val'[a]) \o ")", "#t">>]
Bounded == Len(steps) < NAT + DEPTH
EmitEdge == EmitSteps("e", steps' \o LoadAll)
EmitPath == IF Len(steps') = NAT + DEPTH THEN EmitSteps("p", steps' \o LoadAll) ELSE TRUE
=============================================================================
