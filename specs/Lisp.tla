-------------------------------- MODULE Lisp --------------------------------
(* The meaning of the language, as a definitional interpreter over an explicit   *)
(* store: scopes, closures, macros, the log of effects. A form is a value (code  *)
(* is data); values are tagged tuples                                            *)
(*   <<"i",n>> <<"b",TRUE>> <<"s","x">> <<"y","x">> (symbol) <<"l",<<v..>>>> (list) *)
(*   <<"d",<<v..>>,v>> (dotted) <<"f",k>> <<"m",k>> <<"p",name>> <<"e",k>> (scope)  *)
(*   <<"x",m>> (the text of an error message: known to contain m)                  *)
(* Every operator returns [k, v, s]: k is "ok" with value v, "er" with message v,  *)
(* or "sk" when the program leaves what is specified here. s is the store.         *)
EXTENDS Emit, Integers, Json, IOUtils

Prims == JsonDeserialize("prims.json")      \* name |-> [lo, hi, special, restricted]
PrimNames == DOMAIN Prims
Opaque == {"pi", "e", "phi", "sqrt2", "sqrte", "sqrtpi", "sqrtphi", "ln2", "log2e", "ln10", "log10e", "nan", "+inf", "-inf"}

I(n) == <<"i", n>>
B(x) == <<"b", x>>
Y(x) == <<"y", x>>
L(x) == <<"l", x>>
Nil == <<"l", <<>> >>
IsL(v) == v[1] = "l"
IsPairV(v) == v[1] \in {"l", "d"}
True(v) == v # Nil /\ v # <<"b", FALSE>>
IsFn(v) == v[1] \in {"f", "p"}
Cons(a, d) == CASE d[1] = "l" -> L(<<a>> \o d[2]) [] d[1] = "d" -> <<"d", <<a>> \o d[2], d[3]>> [] OTHER -> <<"d", <<a>>, d>>
Car(v) == IF IsPairV(v) /\ v # Nil THEN v[2][1] ELSE Nil
Cdr(v) == CASE v[1] = "l" -> IF v[2] = <<>> THEN Nil ELSE L(Tail(v[2]))
            [] v[1] = "d" -> IF Len(v[2]) = 1 THEN v[3] ELSE <<"d", Tail(v[2]), v[3]>>
            [] OTHER -> Nil
\* what the dotted tail of a list is when elements are put in front of it
WithTail(xs, t) == IF xs = <<>> THEN t ELSE CASE t[1] = "l" -> L(xs \o t[2]) [] t[1] = "d" -> <<"d", xs \o t[2], t[3]>> [] OTHER -> <<"d", xs, t>>
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

------------------------------------------------------------------------------
\* printing in the notation of the harness
RECURSIVE Show(_)
Show(v) ==
  CASE v[1] = "i" -> Str(v[2])
    [] v[1] = "b" -> IF v[2] THEN "#t" ELSE "#f"
    [] v[1] = "s" -> "\"" \o v[2] \o "\""
    [] v[1] = "y" -> v[2]
    [] v[1] = "l" -> "(" \o JoinWith([i \in 1..Len(v[2]) |-> Show(v[2][i])], " ") \o ")"
    [] v[1] = "d" -> "(" \o JoinWith([i \in 1..Len(v[2]) |-> Show(v[2][i])], " ") \o " . " \o Show(v[3]) \o ")"
    [] v[1] = "f" -> "<fn>"
    [] v[1] = "m" -> "<macro>"
    [] v[1] = "p" -> "<prim:" \o v[2] \o ">"
    [] v[1] = "e" -> "<env>"
    [] OTHER -> "?"
RECURSIVE Printable(_)
Printable(v) == CASE v[1] = "l" -> \A i \in 1..Len(v[2]) : Printable(v[2][i])
                  [] v[1] = "d" -> Printable(v[3]) /\ \A i \in 1..Len(v[2]) : Printable(v[2][i])
                  [] v[1] = "x" -> FALSE
                  [] v[1] = "i" -> v[2] < 1000000000 /\ v[2] > -1000000000
                  [] OTHER -> TRUE

------------------------------------------------------------------------------
\* the store
Empty == [x \in {} |-> Nil]
Store0(res) == [envs |-> << [p |-> 0, b |-> Empty, r |-> FALSE], [p |-> 1, b |-> Empty, r |-> res] >>,
                fns |-> <<>>, macs |-> <<>>, log |-> <<>>, fuel |-> 3000, tops |-> Empty,
                base |-> 0, dirty |-> FALSE]      \* dirty: one of the first base scopes was written, or the table of named scopes used
Ok(v, s) == [k |-> "ok", v |-> v, s |-> s]
Er(m, s) == [k |-> "er", v |-> m, s |-> s]
Sk(m, s) == [k |-> "sk", v |-> m, s |-> s]

NewEnv(p, s) == [s EXCEPT !.envs = Append(@, [p |-> p, b |-> Empty, r |-> FALSE])]
Bind(n, v, e, s) == [s EXCEPT !.envs[e].b = (n :> v) @@ @, !.dirty = @ \/ e <= s.base]
RECURSIVE Where(_, _, _)
Where(n, e, s) == IF n \in DOMAIN s.envs[e].b THEN e ELSE IF s.envs[e].p = 0 THEN 0 ELSE Where(n, s.envs[e].p, s)
\* a scope is restricted when it or any scope around it is
RECURSIVE Restricted(_, _)
Restricted(e, s) == s.envs[e].r \/ (s.envs[e].p # 0 /\ Restricted(s.envs[e].p, s))
Builtin(n) == n \in PrimNames \/ n = "nil" \/ n \in Opaque
LookupV(n, e, s) == LET w == Where(n, e, s) IN
   IF w # 0 THEN s.envs[w].b[n] ELSE IF n \in PrimNames THEN <<"p", n>> ELSE Nil
Naked(n) == LET k == Len(n) IN k > 1 /\ SubSeq(n, k, k) = ":"
\* binding in scope e itself
BindHere(n, v, e, s) == IF e = 1 /\ Builtin(n) THEN Er("", s) ELSE Ok(v, Bind(n, v, e, s))
Assign(n, v, e, s) == LET w == Where(n, e, s) IN
   IF w # 0 THEN Ok(v, Bind(n, v, w, s)) ELSE Er("", s)

NewFn(name, params, body, e, s) ==
  LET ps == IF params[1] = "d" THEN params[2] ELSE IF params[1] = "l" THEN params[2] ELSE <<>>
      rest == IF params[1] = "d" THEN params[3] ELSE IF params[1] = "l" THEN <<>> ELSE params
      f == [name |-> name, ps |-> ps, rest |-> rest, body |-> body, e |-> e] IN
  Ok(<<"f", Len(s.fns) + 1>>, [s EXCEPT !.fns = Append(@, f)])
NewMac(name, params, body, e, s) ==
  LET ps == IF params[1] \in {"d", "l"} THEN params[2] ELSE <<>>
      rest == IF params[1] = "d" THEN params[3] ELSE IF params[1] = "l" THEN <<>> ELSE params
      m == [name |-> name, ps |-> ps, rest |-> rest, body |-> body, e |-> e] IN
  Ok(<<"m", Len(s.macs) + 1>>, [s EXCEPT !.macs = Append(@, m)])
Fits(f, n) == IF f.rest = <<>> THEN n = Len(f.ps) ELSE n >= Len(f.ps)
\* the parameters of f bound to vals in scope e
RECURSIVE BindParams(_, _, _, _, _)
BindParams(f, vals, i, e, s) ==
  IF i > Len(f.ps) THEN IF f.rest = <<>> THEN s ELSE Bind(f.rest[2], L(SubSeq(vals, i, Len(vals))), e, s)
  ELSE BindParams(f, vals, i + 1, e, Bind(f.ps[i][2], vals[i], e, s))

------------------------------------------------------------------------------
RECURSIVE Eval(_, _, _), EvalList(_, _, _, _), Body(_, _, _, _), Apply(_, _, _, _), ApplyVals(_, _, _, _), CallFn(_, _, _),
          Special(_, _, _, _), Normal(_, _, _, _), Cond(_, _, _), Case(_, _, _, _), And(_, _, _, _), Or(_, _, _, _),
          LetBind(_, _, _, _, _), NilBind(_, _, _, _), DoLoop(_, _, _, _, _), DoStep(_, _, _, _, _), Quasi(_, _, _, _), QuasiSeq(_, _, _, _, _, _),
          Chain(_, _, _, _, _, _), MapLoop(_, _, _, _, _, _), PredLoop(_, _, _, _, _, _, _), FoldLoop(_, _, _, _, _, _, _), Seek(_, _, _, _, _)

\* every subexpression of es from position i on, left to right
EvalList(es, acc, e, s) ==
  IF Len(acc) = Len(es) THEN Ok(acc, s)
  ELSE LET r == Eval(es[Len(acc) + 1], e, s) IN IF r.k # "ok" THEN r ELSE EvalList(es, Append(acc, r.v), e, r.s)
\* a sequence of expressions, the value is the last one's
Body(es, i, e, s) ==
  IF i > Len(es) THEN Ok(Nil, s)
  ELSE LET r == Eval(es[i], e, s) IN IF r.k # "ok" \/ i = Len(es) THEN r ELSE Body(es, i + 1, e, r.s)

Eval(x, e, s0) ==
  LET s == [s0 EXCEPT !.fuel = @ - 1] IN
  IF s0.fuel = 0 THEN Sk("fuel", s)
  ELSE IF x[1] = "y" THEN IF Naked(x[2]) THEN Ok(x, s)
                          ELSE IF x[2] \in Opaque /\ Where(x[2], e, s) = 0 THEN Sk("float", s) ELSE Ok(LookupV(x[2], e, s), s)
  ELSE IF x[1] = "d" THEN Sk("dotted code", s)
  ELSE IF x[1] # "l" \/ x = Nil THEN Ok(x, s)
  ELSE LET f == Eval(x[2][1], e, s) IN
       IF f.k # "ok" THEN f ELSE IF f.v = Nil THEN Er("", f.s) ELSE Apply(f.v, Tail(x[2]), e, f.s)

\* application to unevaluated arguments
Apply(f, args, e, s) ==
  CASE f[1] = "f" -> LET fn == s.fns[f[2]] IN
         IF ~Fits(fn, Len(args)) THEN Er("", s)
         ELSE LET r == EvalList(args, <<>>, e, s) IN IF r.k # "ok" THEN r ELSE CallFn(fn, r.v, r.s)
    [] f[1] = "m" -> LET m == s.macs[f[2]] IN
         IF ~Fits(m, Len(args)) THEN Er("", s)
         ELSE LET s1 == NewEnv(m.e, s)
                  r == Eval(m.body, Len(s1.envs), BindParams(m, args, 1, Len(s1.envs), s1)) IN
              IF r.k # "ok" THEN r ELSE Eval(r.v, e, r.s)
    [] f[1] = "p" -> LET p == Prims[f[2]] IN
         IF p[4] = 1 /\ Restricted(e, s) THEN Er("", s)
         ELSE IF Len(args) < p[1] \/ Len(args) > p[2] THEN Er("", s)
         ELSE IF p[3] = 1 THEN Special(f[2], args, e, s)
         ELSE LET r == EvalList(args, <<>>, e, s) IN IF r.k # "ok" THEN r ELSE Normal(f[2], r.v, e, r.s)
    [] OTHER -> Er("", s)

\* application to values
ApplyVals(f, vals, e, s) ==
  CASE f[1] = "f" -> LET fn == s.fns[f[2]] IN IF ~Fits(fn, Len(vals)) THEN Er("", s) ELSE CallFn(fn, vals, s)
    [] f[1] = "p" -> LET p == Prims[f[2]] IN
         IF p[4] = 1 /\ Restricted(e, s) THEN Er("", s)
         ELSE IF Len(vals) < p[1] \/ Len(vals) > p[2] THEN Er("", s)
         ELSE IF p[3] = 1 THEN Special(f[2], vals, e, s) ELSE Normal(f[2], vals, e, s)
    [] OTHER -> Er("", s)

CallFn(fn, vals, s) ==
  LET s1 == NewEnv(fn.e, s)
      s2 == BindParams(fn, vals, 1, Len(s1.envs), s1) IN
  Body(fn.body, 1, Len(s1.envs), s2)

------------------------------------------------------------------------------
\* special forms: args are expressions
Cond(cs, e, s) ==
  IF cs = <<>> THEN Ok(Nil, s)
  ELSE LET c == Head(cs) IN
    IF c[1] # "l" THEN IF c[1] = "d" THEN Sk("dotted code", s) ELSE Er("", s)
    ELSE IF c = Nil THEN Cond(Tail(cs), e, s)
    ELSE IF c[2][1] = Y("else") THEN Body(Tail(c[2]), 1, e, s)
    ELSE LET r == Eval(c[2][1], e, s) IN
         IF r.k # "ok" THEN r ELSE IF True(r.v) THEN Body(Tail(c[2]), 1, e, r.s) ELSE Cond(Tail(cs), e, r.s)
Case(key, cs, e, s) ==
  IF cs = <<>> THEN Ok(Nil, s)
  ELSE LET c == Head(cs) IN
    IF c[1] # "l" THEN IF c[1] = "d" THEN Sk("dotted code", s) ELSE Er("", s)
    ELSE IF c = Nil THEN Case(key, Tail(cs), e, s)
    ELSE IF c[2][1] = Y("else") THEN Body(Tail(c[2]), 1, e, s)
    ELSE IF c[2][1][1] = "d" THEN Sk("dotted code", s)
    ELSE IF c[2][1][1] # "l" THEN Er("", s)
    ELSE IF \E i \in 1..Len(c[2][1][2]) : c[2][1][2][i] = key THEN Body(Tail(c[2]), 1, e, s)
    ELSE Case(key, Tail(cs), e, s)
And(es, v, e, s) == IF es = <<>> THEN Ok(v, s)
  ELSE LET r == Eval(Head(es), e, s) IN IF r.k # "ok" \/ ~True(r.v) THEN r ELSE And(Tail(es), r.v, e, r.s)
Or(es, v, e, s) == IF es = <<>> THEN Ok(v, s)
  ELSE LET r == Eval(Head(es), e, s) IN IF r.k # "ok" \/ True(r.v) THEN r ELSE Or(Tail(es), r.v, e, r.s)

Nth(es, i) == IF i <= Len(es) THEN es[i] ELSE Nil
\* bs: binding pairs; evaluated in scope ee, bound in scope le
GoodBinds(bs) == \A i \in 1..Len(bs) : bs[i][1] = "l" /\ bs[i] # Nil /\ bs[i][2][1][1] = "y"
LetBind(bs, i, ee, le, s) ==
  IF i > Len(bs) THEN Ok(Nil, s)
  ELSE LET r == Eval(Nth(bs[i][2], 2), ee, s) IN
       IF r.k # "ok" THEN r ELSE LetBind(bs, i + 1, ee, le, Bind(bs[i][2][1][2], r.v, le, r.s))
NilBind(bs, i, le, s) == IF i > Len(bs) THEN s ELSE NilBind(bs, i + 1, le, Bind(bs[i][2][1][2], Nil, le, s))
Let(args, e, s, star, rec) ==
  IF ~IsPairV(args[1]) THEN Er("", s)
  ELSE IF args[1][1] = "d" \/ \E i \in 1..Len(args[1][2]) : args[1][2][i] = Nil \/ args[1][2][i][1] = "d" THEN Sk("odd let", s)
  ELSE LET bs == args[1][2] IN
  IF ~GoodBinds(bs) THEN Er("", s)
  ELSE LET s1 == NewEnv(e, s)
           le == Len(s1.envs)
           s2 == IF rec THEN NilBind(bs, 1, le, s1) ELSE s1
           r == LetBind(bs, 1, IF star \/ rec THEN le ELSE e, le, s2) IN
       IF r.k # "ok" THEN r ELSE Body(Tail(args), 1, le, r.s)
NamedLet(args, e, s) ==
  IF Len(args) < 2 \/ ~IsL(args[2]) THEN (IF Len(args) >= 2 /\ args[2][1] = "d" THEN Sk("dotted code", s) ELSE IF Len(args) < 2 THEN Sk("odd let", s) ELSE Er("", s))
  ELSE LET bs == args[2][2] IN
  IF ~\A i \in 1..Len(bs) : bs[i][1] = "l" /\ bs[i] # Nil THEN Sk("odd let", s)
  ELSE IF ~GoodBinds(bs) THEN Er("", s)
  ELSE LET s1 == NewEnv(e, s)
           le == Len(s1.envs)
           f == NewFn(args[1][2], L([i \in 1..Len(bs) |-> bs[i][2][1]]), SubSeq(args, 3, Len(args)), le, s1)
           s2 == Bind(args[1][2], f.v, le, f.s)
       IN Apply(f.v, [i \in 1..Len(bs) |-> Nth(bs[i][2], 2)], e, s2)

DoStep(bs, acc, le, s, n) ==
  IF Len(acc) = n THEN Ok(acc, s)
  ELSE LET i == Len(acc) + 1
           r == IF Nth(bs[i][2], 3) # Nil THEN Eval(bs[i][2][3], le, s) ELSE Ok(LookupV(bs[i][2][1][2], le, s), s) IN
       IF r.k # "ok" THEN r ELSE DoStep(bs, Append(acc, r.v), le, r.s, n)
RECURSIVE BindAll(_, _, _, _, _)
BindAll(bs, vs, i, le, s) == IF i > Len(bs) THEN s ELSE BindAll(bs, vs, i + 1, le, Bind(bs[i][2][1][2], vs[i], le, s))
DoLoop(bs, test, body, le, s0) ==
  LET s == [s0 EXCEPT !.fuel = @ - 1]
      t == Eval(Head(test), le, s) IN
  IF s0.fuel <= 0 THEN Sk("fuel", s)
  ELSE IF t.k # "ok" THEN t
  ELSE IF True(t.v) THEN IF Len(test) = 1 THEN Sk("do without result", t.s) ELSE Body(Tail(test), 1, le, t.s)
  ELSE LET b == Body(body, 1, le, t.s) IN
       IF b.k # "ok" THEN b
       ELSE LET r == DoStep(bs, <<>>, le, b.s, Len(bs)) IN
            IF r.k # "ok" THEN r ELSE DoLoop(bs, test, body, le, BindAll(bs, r.v, 1, le, r.s))
Do(args, e, s) ==
  IF ~IsPairV(args[1]) \/ ~IsPairV(args[2]) THEN Er("", s)
  ELSE IF args[1][1] = "d" \/ args[2][1] = "d" \/ args[2] = Nil \/ \E i \in 1..Len(args[1][2]) : args[1][2][i] = Nil \/ args[1][2][i][1] = "d" THEN Sk("odd do", s)
  ELSE IF ~GoodBinds(args[1][2]) THEN Er("", s)
  ELSE LET s1 == NewEnv(e, s)
           le == Len(s1.envs)
           r == LetBind(args[1][2], 1, e, le, s1) IN
       IF r.k # "ok" THEN r ELSE DoLoop(args[1][2], args[2][2], SubSeq(args, 3, Len(args)), le, r.s)

\* a template; the value is the sequence of elements it contributes
Quasi(t, lv, e, s) ==
  LET hd == IF IsPairV(t) /\ t # Nil /\ t[2][1][1] = "y" THEN t[2][1][2] ELSE "" IN
  IF ~IsPairV(t) \/ t = Nil THEN Ok(<<t>>, s)
  ELSE IF hd \in {"quasiquote", "unquote", "unquote-splicing"} THEN
    IF t[1] # "l" \/ Len(t[2]) # 2 THEN Sk("odd template", s)
    ELSE IF hd = "quasiquote" \/ lv > 1 THEN
      LET r == Quasi(t[2][2], IF hd = "quasiquote" THEN lv + 1 ELSE lv - 1, e, s) IN
      IF r.k # "ok" THEN r ELSE Ok(<<L(<<t[2][1]>> \o r.v)>>, r.s)
    ELSE LET r == Eval(t[2][2], e, s) IN
      IF r.k # "ok" THEN r
      ELSE IF hd = "unquote" THEN Ok(<<r.v>>, r.s)
      ELSE IF r.v[1] = "d" THEN Sk("dotted splice", r.s)
      ELSE IF r.v[1] = "l" THEN Ok(r.v[2], r.s) ELSE Sk("odd splice", r.s)
  ELSE QuasiSeq(t, 1, <<>>, lv, e, s)
QuasiSeq(t, i, acc, lv, e, s) ==
  IF i > Len(t[2]) THEN
    IF t[1] = "l" THEN Ok(<<L(acc)>>, s)
    ELSE LET r == Quasi(t[3], lv, e, s) IN IF r.k # "ok" THEN r ELSE IF Len(r.v) # 1 THEN Sk("odd template", r.s) ELSE Ok(<<WithTail(acc, r.v[1])>>, r.s)
  ELSE IF i > 1 /\ t[1] = "l" /\ Len(t[2]) = i + 1 /\ t[2][i] = Y("unquote") THEN
    LET r == Quasi(L(SubSeq(t[2], i, i + 1)), lv, e, s) IN IF r.k # "ok" THEN r ELSE Ok(<<WithTail(acc, r.v[1])>>, r.s)
  ELSE LET r == Quasi(t[2][i], lv, e, s) IN IF r.k # "ok" THEN r ELSE QuasiSeq(t, i + 1, acc \o r.v, lv, e, r.s)

\* -> and =>: keep says that every stage gets the first value
Chain(first, v, es, keep, e, s) ==
  IF es = <<>> THEN Ok(v, s)
  ELSE LET x == Head(es)
           q == L(<< <<"p", "quote">>, v>>)
           call == IF IsL(x) THEN L(<<Car(x), q>> \o (IF x = Nil THEN <<>> ELSE Tail(x[2]))) ELSE L(<<x, q>>)
           special == LET h == IF IsL(x) THEN Car(x) ELSE x IN
                      IF h[1] = "y" THEN LET f == LookupV(h[2], e, s) IN f[1] = "m" \/ (f[1] = "p" /\ Prims[f[2]][3] = 1 /\ f[2] \notin {"if", "and", "or", "when", "unless", "begin"})
                      ELSE FALSE
           r == Eval(call, e, s) IN
       IF special \/ x[1] = "d" THEN Sk("chained form", s)
       ELSE IF r.k # "ok" THEN r ELSE IF keep THEN Chain(first, v, Tail(es), keep, e, r.s) ELSE Chain(first, r.v, Tail(es), keep, e, r.s)

Special(n, a, e, s) ==
  CASE n = "quote" -> Ok(a[1], s)
    [] n = "quasiquote" -> LET r == Quasi(a[1], 1, e, s) IN IF r.k # "ok" THEN r ELSE IF Len(r.v) # 1 THEN Sk("odd template", r.s) ELSE Ok(r.v[1], r.s)
    [] n = "if" -> LET r == Eval(a[1], e, s) IN IF r.k # "ok" THEN r ELSE IF True(r.v) THEN Eval(a[2], e, r.s) ELSE Eval(Nth(a, 3), e, r.s)
    [] n \in {"when", "unless"} -> LET r == Eval(a[1], e, s) IN
         IF r.k # "ok" THEN r ELSE IF True(r.v) = (n = "when") THEN Body(Tail(a), 1, e, r.s) ELSE Ok(Nil, r.s)
    [] n = "cond" -> Cond(a, e, s)
    [] n = "case" -> LET r == Eval(a[1], e, s) IN IF r.k # "ok" THEN r ELSE Case(r.v, Tail(a), e, r.s)
    [] n = "and" -> And(a, Nil, e, s)
    [] n = "or" -> Or(a, Nil, e, s)
    [] n = "begin" -> Body(a, 1, e, s)
    [] n = "lambda" -> IF ~IsPairV(a[1]) THEN Er("", s) ELSE NewFn("unnamed", a[1], Tail(a), e, s)
    [] n = "named-lambda" -> IF ~IsPairV(a[1]) \/ Car(a[1])[1] # "y" THEN Er("", s) ELSE NewFn(Car(a[1])[2], Cdr(a[1]), Tail(a), e, s)
    [] n = "define" ->
         IF a[1][1] = "y" THEN LET r == Eval(Nth(a, 2), e, s) IN IF r.k # "ok" THEN r ELSE BindHere(a[1][2], r.v, e, r.s)
         ELSE IF ~IsPairV(a[1]) \/ Car(a[1])[1] # "y" THEN Er("", s)
         ELSE IF LookupV(Car(a[1])[2], e, s)[1] = "p" THEN Er("", s)
         ELSE LET f == NewFn(Car(a[1])[2], Cdr(a[1]), Tail(a), e, s)
                  r == BindHere(Car(a[1])[2], f.v, e, f.s) IN r
    [] n = "defmacro" ->
         IF ~IsPairV(a[1]) \/ Car(a[1])[1] # "y" THEN Er("", s)
         ELSE LET f == NewMac(Car(a[1])[2], Cdr(a[1]), Nth(a, 2), e, s) IN BindHere(Car(a[1])[2], f.v, e, f.s)
    [] n = "let" -> IF a[1][1] = "y" THEN NamedLet(a, e, s) ELSE Let(a, e, s, FALSE, FALSE)
    [] n = "let*" -> Let(a, e, s, TRUE, FALSE)
    [] n = "letrec" -> Let(a, e, s, FALSE, TRUE)
    [] n = "do" -> Do(a, e, s)
    [] n = "set!" -> LET r == Eval(a[2], e, s) IN
         IF r.k # "ok" THEN r ELSE IF a[1][1] # "y" THEN Er("", r.s) ELSE Assign(a[1][2], r.v, e, r.s)
    [] n \in {"->", "=>"} -> LET r == Eval(a[1], e, s) IN IF r.k # "ok" THEN r ELSE Chain(r.v, r.v, Tail(a), n = "=>", e, r.s)
    [] n = "expand" -> LET r == Eval(a[1], e, s) IN
         IF r.k # "ok" THEN r ELSE IF r.v[1] # "m" THEN Er("", r.s)
         ELSE LET m == r.s.macs[r.v[2]] IN
              IF ~Fits(m, Len(a) - 1) THEN Er("", r.s)
              ELSE LET s1 == NewEnv(m.e, r.s) IN Eval(m.body, Len(s1.envs), BindParams(m, Tail(a), 1, Len(s1.envs), s1))
    [] n = "on-error" -> LET r == Eval(a[1], e, s) IN
         IF r.k = "sk" THEN r
         ELSE IF r.k = "ok" THEN
           IF Len(a) = 2 THEN r
           ELSE LET h == Eval(a[3], e, r.s) IN
                IF h.k # "ok" THEN h ELSE IF h.v[1] # "f" THEN Er("", h.s) ELSE ApplyVals(h.v, <<>>, e, h.s)
         ELSE LET h == Eval(a[2], e, r.s) IN
                IF h.k # "ok" THEN h ELSE IF h.v[1] # "f" THEN Er("", h.s) ELSE ApplyVals(h.v, << <<"x", r.v>> >>, e, h.s)
    [] n \in {"unquote", "unquote-splicing"} -> Er("", s)
    [] OTHER -> Sk("unspecified form " \o n, s)

------------------------------------------------------------------------------
\* the ordinary primitives: a are values
AllInts(a) == \A i \in 1..Len(a) : a[i][1] = "i"
RECURSIVE SumF(_, _), ProdF(_, _)
SumF(a, i) == IF i > Len(a) THEN 0 ELSE a[i][2] + SumF(a, i + 1)
ProdF(a, i) == IF i > Len(a) THEN 1 ELSE LET p == ProdF(a, i + 1) IN IF p > 20000 \/ p < -20000 \/ a[i][2] > 20000 \/ a[i][2] < -20000 THEN 400000000 ELSE a[i][2] * p
Num(n, s) == IF n > 300000000 \/ n < -300000000 THEN Sk("big", s) ELSE Ok(I(n), s)
Cmp(n, x, y) == CASE n = "<" -> x < y [] n = ">" -> x > y [] n = "<=" -> x <= y [] OTHER -> x >= y
\* call f on each tuple of elements, collecting the results
MapLoop(f, ls, i, acc, e, s) ==
  IF \E k \in 1..Len(ls) : i > Len(ls[k][2]) THEN Ok(acc, s)
  ELSE LET r == ApplyVals(f, [k \in 1..Len(ls) |-> ls[k][2][i]], e, s) IN
       IF r.k # "ok" THEN r ELSE MapLoop(f, ls, i + 1, Append(acc, r.v), e, r.s)
\* any (stop = TRUE) and every (stop = FALSE): the call that decides is the last one
Seek(f, ls, i, stop, es) ==
  IF \E k \in 1..Len(ls) : i > Len(ls[k][2]) THEN Ok(B(~stop), es[2])
  ELSE LET r == ApplyVals(f, [k \in 1..Len(ls) |-> ls[k][2][i]], es[1], es[2]) IN
       IF r.k # "ok" THEN r ELSE IF True(r.v) = stop THEN Ok(B(stop), r.s) ELSE Seek(f, ls, i + 1, stop, <<es[1], r.s>>)
\* the answers of predicate f on xs, in order; strict: each must be a boolean; stop: end at the first true one
PredLoop(f, xs, acc, strict, stop, e, s) ==
  IF Len(acc) = Len(xs) \/ (stop /\ acc # <<>> /\ acc[Len(acc)]) THEN Ok(acc, s)
  ELSE LET r == ApplyVals(f, <<xs[Len(acc) + 1]>>, e, s) IN
       IF r.k # "ok" THEN r ELSE IF strict /\ r.v[1] # "b" THEN Er("", r.s)
       ELSE PredLoop(f, xs, Append(acc, True(r.v)), strict, stop, e, r.s)
FoldLoop(f, xs, i, v, right, e, s) ==
  IF i > Len(xs) THEN Ok(v, s)
  ELSE LET r == ApplyVals(f, IF right THEN <<xs[i], v>> ELSE <<v, xs[i]>>, e, s) IN
       IF r.k # "ok" THEN r ELSE FoldLoop(f, xs, i + 1, r.v, right, e, r.s)
Pick(xs, keep) == LET RECURSIVE P(_) P(i) == IF i > Len(xs) THEN <<>> ELSE (IF keep[i] THEN <<xs[i]>> ELSE <<>>) \o P(i + 1) IN P(1)
RECURSIVE Cat(_, _)
Cat(a, i) == IF i > Len(a) THEN <<>> ELSE (IF IsL(a[i]) THEN a[i][2] ELSE <<a[i]>>) \o Cat(a, i + 1)
RECURSIVE Chunks(_, _)
Chunks(xs, n) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) <= n THEN <<L(xs)>> ELSE <<L(SubSeq(xs, 1, n))>> \o Chunks(SubSeq(xs, n + 1, Len(xs)), n)
RECURSIVE Path(_, _)
Path(p, v) == IF p = "" THEN v ELSE LET c == SubSeq(p, Len(p), Len(p)) IN Path(SubSeq(p, 1, Len(p) - 1), IF c = "a" THEN Car(v) ELSE Cdr(v))
Paths == [caar |-> "aa", cadr |-> "ad", cdar |-> "da", cddr |-> "dd", caaar |-> "aaa", caadr |-> "aad", cadar |-> "ada", caddr |-> "add",
          cdaar |-> "daa", cdadr |-> "dad", cddar |-> "dda", cdddr |-> "ddd", cadddr |-> "addd", cddddr |-> "dddd"]
Ordinal == [first |-> 1, second |-> 2, third |-> 3, fourth |-> 4, fifth |-> 5]
HasDot(ls) == \E k \in 1..Len(ls) : ls[k][1] = "d"

\* scopes as values
IsSub(e, a, s) == LET RECURSIVE U(_) U(x) == x = a \/ (x # 0 /\ U(s.envs[x].p)) IN U(e)
EnvOp(n, a, e, s) ==
  IF n = "the-environment" THEN IF e = 1 \/ s.envs[e].p = 1 THEN Ok(<<"e", e>>, s) ELSE Er("", s)
  ELSE IF n = "environment?" THEN Ok(B(a[1][1] = "e"), s)
  ELSE IF n = "system-global-environment" THEN Ok(<<"e", 1>>, s)
  ELSE IF n = "procedure-environment" THEN IF a[1][1] = "f" THEN Ok(<<"e", s.fns[a[1][2]].e>>, s) ELSE Er("", s)
  ELSE IF n = "restrict-environment" THEN Ok(<<"s", "OK">>, [s EXCEPT !.envs[e].r = TRUE, !.dirty = @ \/ e <= s.base])
  ELSE IF n = "make-top-level-environment" THEN
    LET named == a[1][1] = "s"
        b == IF named THEN Tail(a) ELSE a
        s0 == NewEnv(1, s)
        k == Len(s0.envs)
        s1 == IF named THEN [s0 EXCEPT !.tops = (a[1][2] :> k) @@ @, !.dirty = @ \/ s.base > 0] ELSE s0
        xs == IF b = <<>> THEN <<>> ELSE b[1][2]
        RECURSIVE BD(_, _)
        BD(i, t) == IF i > Len(xs) THEN t ELSE BD(i + 1, Bind(xs[i][2], IF Len(b) = 2 THEN b[2][2][i] ELSE Nil, k, t)) IN
    IF Len(b) > 2 THEN Sk("odd", s)
    ELSE IF \E i \in 1..Len(b) : b[i][1] = "d" THEN Sk("odd", s)
    ELSE IF \E i \in 1..Len(b) : ~IsL(b[i]) THEN Er("", s1)
    ELSE IF Len(b) = 2 /\ Len(b[1][2]) # Len(b[2][2]) THEN Er("", s1)
    ELSE IF \E i \in 1..Len(xs) : xs[i][1] # "y" THEN Er("", s1)
    ELSE Ok(<<"e", k>>, BD(1, s1))
  ELSE IF n = "find-top-level-environment" THEN
    IF a[1][1] \notin {"s", "y"} THEN Er("", s)
    ELSE IF a[1][2] \in DOMAIN s.tops THEN Ok(<<"e", s.tops[a[1][2]]>>, s) ELSE Sk("unknown top level environment", s)
  ELSE IF a[1][1] # "e" THEN Er("", s)
  ELSE LET t == a[1][2] IN
  IF n \in {"environment-bound-names", "environment-macro-names", "environment-bindings"} THEN     \* in no particular order
    LET ns == DOMAIN s.envs[t].b
        ms == {x \in ns : s.envs[t].b[x][1] = "m"}
        item(x) == IF n # "environment-bindings" THEN Y(x) ELSE IF s.envs[t].b[x] = Nil THEN L(<<Y(x)>>) ELSE L(<<Y(x), s.envs[t].b[x]>>)
        RECURSIVE Items(_)
        Items(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<item(x)>> \o Items(S \ {x}) IN
    IF t = 1 THEN Sk("listing", s) ELSE Ok(L(Items(IF n = "environment-macro-names" THEN ms ELSE ns)), s)
  ELSE IF n = "environment-has-parent?" THEN Ok(B(s.envs[t].p # 0), s)
  ELSE IF n = "environment-parent" THEN IF s.envs[t].p = 0 THEN Ok(Nil, s) ELSE Ok(<<"e", s.envs[t].p>>, s)
  ELSE IF a[2][1] # "y" THEN Er("", s)
  ELSE LET x == a[2][2]
           w == Where(x, t, s)
           found == w # 0 \/ Builtin(x)
           v == LookupV(x, t, s)
           odd == x \in Opaque /\ w = 0 IN
  IF odd THEN Sk("float", s)
  ELSE IF n \in {"environment-bound?", "environment-assignable?"} THEN Ok(B(found), s)
  ELSE IF n = "environment-definable?" THEN Ok(B(TRUE), s)
  ELSE IF n = "environment-lookup-macro" THEN IF v[1] = "m" THEN Ok(v, s) ELSE Ok(B(FALSE), s)
  ELSE IF n = "environment-assign!" THEN IF w = 0 THEN Er("", s) ELSE Assign(x, a[3], t, s)
  ELSE IF n = "environment-define" THEN BindHere(x, a[3], t, s)
  ELSE IF v = Nil /\ found THEN Sk("assigned?", s)
  ELSE IF n = "environment-reference-type" THEN Ok(Y(IF ~found THEN "unbound" ELSE IF v[1] = "m" THEN "macro" ELSE "normal"), s)
  ELSE IF ~found \/ v[1] = "m" THEN Er("", s)
  ELSE IF n = "environment-assigned?" THEN Ok(B(TRUE), s)
  ELSE IF n = "environment-lookup" THEN Ok(v, s)
  ELSE Sk("unspecified " \o n, s)
EnvPrims == {n \in PrimNames : Len(n) > 11 /\ SubSeq(n, 1, 11) = "environment"} \cup {"the-environment", "system-global-environment", "procedure-environment",
             "restrict-environment", "make-top-level-environment", "find-top-level-environment"}

ListFns == {"map", "for-each", "any", "every", "filter", "remove", "find", "find-tail", "memp", "partition", "reduce", "reduce-left", "reduce-right", "fold-left", "fold-right", "apply"}
ListFn(n, a, e, s) ==
  IF n = "apply" THEN
    IF ~IsFn(a[1]) THEN Er("", s)
    ELSE LET l == a[Len(a)] IN
         IF l[1] = "d" THEN Sk("dotted", s) ELSE IF ~IsL(l) THEN Er("", s)
         ELSE ApplyVals(a[1], SubSeq(a, 2, Len(a) - 1) \o l[2], e, s)
  ELSE IF n \in {"map", "for-each", "any", "every"} THEN
    LET ls == Tail(a)
        nonl == {k \in 1..Len(ls) : ls[k][1] # "l"}
        empt == {k \in 1..Len(ls) : ls[k] = Nil}
        MinOf(S) == CHOOSE k \in S : \A j \in S : k <= j IN
    IF ~IsFn(a[1]) THEN Er("", s)
    ELSE IF HasDot(ls) THEN Sk("dotted", s)
    ELSE IF nonl # {} THEN (IF n = "map" /\ empt # {} /\ MinOf(empt) < MinOf(nonl) THEN Sk("odd map", s) ELSE Er("", s))
    ELSE IF n \in {"map", "for-each"} THEN
         LET r == MapLoop(a[1], ls, 1, <<>>, e, s) IN IF r.k # "ok" THEN r ELSE Ok(IF n = "map" THEN L(r.v) ELSE Nil, r.s)
    ELSE Seek(a[1], ls, 1, n = "any", <<e, s>>)
  ELSE IF n = "partition" /\ a[1][1] = "i" THEN
    IF a[2][1] = "d" THEN Sk("dotted", s) ELSE IF ~IsL(a[2]) THEN Er("", s)
    ELSE IF a[1][2] < 1 THEN Er("", s) ELSE Ok(L(Chunks(a[2][2], a[1][2])), s)
  ELSE IF ~IsFn(a[1]) THEN Er("", s)
  ELSE IF n \in {"reduce", "reduce-left", "reduce-right", "fold-left", "fold-right"} THEN
    IF a[3][1] = "d" THEN Sk("dotted", s)
    ELSE IF ~IsL(a[3]) THEN Er("", s)
    ELSE LET xs == a[3][2] IN
         IF n \in {"fold-left"} THEN FoldLoop(a[1], xs, 1, a[2], FALSE, e, s)
         ELSE IF n = "fold-right" THEN FoldLoop(a[1], Rev(xs), 1, a[2], TRUE, e, s)
         ELSE IF xs = <<>> THEN Ok(a[2], s)
         ELSE IF n = "reduce-right" THEN FoldLoop(a[1], Tail(Rev(xs)), 1, xs[Len(xs)], TRUE, e, s)
         ELSE FoldLoop(a[1], Tail(xs), 1, xs[1], FALSE, e, s)
  ELSE IF a[2][1] = "d" THEN Sk("dotted", s)
  ELSE IF ~IsL(a[2]) THEN Er("", s)
  ELSE LET xs == a[2][2]
           stop == n \in {"find", "find-tail", "memp"}
           r == PredLoop(a[1], xs, <<>>, n # "partition", stop, e, s) IN
       IF r.k # "ok" THEN r
       ELSE CASE n = "filter" -> Ok(L(Pick(xs, r.v)), r.s)
              [] n = "remove" -> Ok(L(Pick(xs, [i \in 1..Len(xs) |-> ~r.v[i]])), r.s)
              [] n = "partition" -> Ok(L(<<L(Pick(xs, r.v)), L(Pick(xs, [i \in 1..Len(xs) |-> ~r.v[i]]))>>), r.s)
              [] OTHER -> IF r.v = <<>> \/ ~r.v[Len(r.v)] THEN Ok(B(FALSE), r.s)
                          ELSE IF n = "find" THEN Ok(xs[Len(r.v)], r.s) ELSE Ok(L(SubSeq(xs, Len(r.v), Len(xs))), r.s)

HasMsg(v) == ~Printable(v)
Normal(n, a, e, s) ==
  CASE n = "vprobe" -> Ok(a[Len(a)], [s EXCEPT !.log = Append(@, a[1])])
    [] n = "list" -> Ok(L(a), s)
    [] n = "cons" -> Ok(Cons(a[1], a[2]), s)
    [] n \in {"car", "head"} -> Ok(Car(a[1]), s)
    [] n \in {"cdr", "rest", "tail"} -> Ok(Cdr(a[1]), s)
    [] n \in DOMAIN Paths -> Ok(Path(Paths[n], a[1]), s)
    [] n \in DOMAIN Ordinal -> IF a[1][1] = "d" THEN Sk("dotted", s) ELSE Ok(IF IsL(a[1]) THEN Nth(a[1][2], Ordinal[n]) ELSE Nil, s)
    [] n \in ListFns -> ListFn(n, a, e, s)
    [] n = "eval" -> IF Len(a) = 1 THEN Eval(a[1], e, s) ELSE IF a[2][1] # "e" THEN Er("", s) ELSE Eval(a[1], a[2][2], s)
    [] n = "global-eval" -> Eval(a[1], 1, s)
    [] n = "error" -> IF a[1][1] = "s" THEN Er(a[1][2], s) ELSE Er("", s)
    [] n = "+" -> IF AllInts(a) THEN Num(SumF(a, 1), s) ELSE Er("", s)
    [] n = "-" -> IF Len(a) < 2 THEN Sk("odd", s) ELSE IF AllInts(a) THEN Num(a[1][2] - SumF(a, 2), s) ELSE Er("", s)
    [] n = "*" -> IF AllInts(a) THEN Num(ProdF(a, 1), s) ELSE Er("", s)
    [] n \in {"<", ">", "<=", ">="} -> IF AllInts(a) THEN Ok(B(Cmp(n, a[1][2], a[2][2])), s) ELSE Er("", s)
    [] n \in {"eq?", "eqv?", "equal?", "==", "!=", "neq?"} -> IF HasMsg(a[1]) \/ HasMsg(a[2]) THEN Sk("message", s) ELSE Ok(B((a[1] = a[2]) = (n \notin {"!=", "neq?"})), s)
    [] n \in {"not", "!"} -> Ok(B(~True(a[1])), s)
    [] n \in {"null?", "nil?"} -> Ok(B(a[1] = Nil), s)
    [] n \in {"notnull?", "notnil?"} -> Ok(B(a[1] # Nil), s)
    [] n = "integer?" -> Ok(B(a[1][1] = "i"), s)
    [] n = "number?" -> Ok(B(a[1][1] = "i"), s)
    [] n = "symbol?" -> Ok(B(a[1][1] = "y"), s)
    [] n = "string?" -> Ok(B(a[1][1] \in {"s", "x"}), s)
    [] n = "boolean?" -> Ok(B(a[1][1] = "b"), s)
    [] n = "macro?" -> Ok(B(a[1][1] = "m"), s)
    [] n = "function?" -> Ok(B(a[1][1] \in {"f", "p"}), s)
    [] n \in {"list?", "pair?"} -> Ok(B(IsPairV(a[1])), s)
    [] n = "length" -> IF a[1][1] = "d" THEN Sk("dotted", s) ELSE Ok(I(IF IsL(a[1]) THEN Len(a[1][2]) ELSE 0), s)
    [] n = "reverse" -> IF ~IsL(a[1]) THEN Sk("odd", s) ELSE Ok(L(Rev(a[1][2])), s)
    [] n = "append" -> IF HasDot(a) THEN Sk("dotted", s) ELSE Ok(L(Cat(a, 1)), s)
    [] n = "cons*" -> Ok(WithTail(SubSeq(a, 1, Len(a) - 1), a[Len(a)]), s)
    [] n = "nth" -> IF ~IsL(a[1]) \/ a[2][1] # "i" THEN Sk("odd", s) ELSE Ok(IF a[2][2] >= 1 THEN Nth(a[1][2], a[2][2]) ELSE Nil, s)
    [] n \in {"memq", "memv", "member"} -> IF ~IsL(a[2]) THEN Sk("odd", s)
         ELSE LET hit == {i \in 1..Len(a[2][2]) : a[2][2][i] = a[1]} IN
              IF hit = {} THEN Ok(B(FALSE), s) ELSE Ok(L(SubSeq(a[2][2], CHOOSE i \in hit : \A j \in hit : i <= j, Len(a[2][2]))), s)
    [] n \in {"even?", "odd?"} -> IF a[1][1] # "i" THEN Er("", s) ELSE Ok(B((a[1][2] % 2 = 0) = (n = "even?")), s)
    [] n = "zero?" -> IF a[1][1] # "i" THEN Er("", s) ELSE Ok(B(a[1][2] = 0), s)
    [] n = "positive?" -> IF a[1][1] # "i" THEN Er("", s) ELSE Ok(B(a[1][2] > 0), s)
    [] n = "succ" -> IF a[1][1] # "i" THEN Er("", s) ELSE Num(a[1][2] + 1, s)
    [] n = "pred" -> IF a[1][1] # "i" THEN Er("", s) ELSE Num(a[1][2] - 1, s)
    \* does a message contain what the program gave to error
    [] n = "substring?" -> IF a[1][1] = "s" /\ a[2][1] = "x" /\ a[2][2] # "" /\ a[1][2] = a[2][2] THEN Ok(B(TRUE), s) ELSE Sk("message", s)
    [] n \in EnvPrims -> EnvOp(n, a, e, s)
    [] Prims[n][4] = 1 -> Sk("outside", s)
    [] OTHER -> Sk("unspecified primitive " \o n, s)
=============================================================================
