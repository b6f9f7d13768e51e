"""Lisp text <-> syntax trees for the specification, and seeded random programs."""
import re, json, random

TOK = re.compile(r'\s*(?:;[^\n]*\n)?\s*("(?:[^"\\]|\\.)*"|,@|[()\'`,]|[^\s()\'`,"]+)')


def tokens(s):
    out, p = [], 0
    s = s.strip()
    while p < len(s):
        m = TOK.match(s, p)
        if not m:
            raise ValueError("cannot tokenise: " + s[p:])
        out.append(m.group(1))
        p = m.end()
    return out


def parse(s):
    t = tokens(s)
    v, p = _parse(t, 0)
    if p != len(t):
        raise ValueError("trailing text: " + s)
    return v


PRE = {"'": "quote", "`": "quasiquote", ",": "unquote", ",@": "unquote-splicing"}


def _parse(t, p):
    x = t[p]
    if x == "(":
        els, p = [], p + 1
        while t[p] != ")":
            if t[p] == ".":
                tail, p = _parse(t, p + 1)
                assert t[p] == ")"
                p += 1
                if not els: return tail, p
                if tail[0] == "l": return ["l", els + tail[1]], p
                if tail[0] == "d": return ["d", els + tail[1], tail[2]], p
                return ["d", els, tail], p
            v, p = _parse(t, p)
            els.append(v)
        return ["l", els], p + 1
    if x in PRE:
        v, p = _parse(t, p + 1)
        return ["l", [["y", PRE[x]], v]], p
    if x[0] == '"': return ["s", x[1:-1]], p + 1
    if re.fullmatch(r"[+-]?\d+", x): return ["i", int(x)], p + 1
    if x in ("#t", "#f"): return ["b", x == "#t"], p + 1
    return ["y", x], p + 1


def form(t):
    return dict(t=t, a=parse(t))


BASE = dict(lit=6, var=12, probe=6, arith=6, cmp=2, iff=4, cond=2, case=1, andor=2, when=1, begin=2, let=4, letrec=1, nlet=1, do=1,
            lamcall=3, call=4, set=4, lst=3, acc=2, onerr=1, err=.3, chain=.6, quasi=1, mac=1, hof=1, evalq=.6, applyf=.6, env=0, restr=0, shadow=.3,
            badarity=.3, badtype=.3, special=.1, unbound=.3, quote=1, closure=1)
PROFILES = {
    "C06": dict(set=10, let=8, letrec=3, nlet=3, do=3, lamcall=6, call=8, closure=6, var=18, unbound=1, onerr=.5, evalq=1),
    "C07": dict(probe=22, badarity=3, cond=4, case=4, andor=6, when=4, iff=6, do=3, nlet=2, chain=4, applyf=2, begin=4, arith=8),
    "C08": dict(mac=10, quasi=14, quote=4, probe=8, evalq=3, set=5),
    "C09": dict(onerr=14, err=6, badtype=3, badarity=2, probe=12, set=8, hof=3, do=2, nlet=1, unbound=1),
    "C10": dict(shadow=14, set=6, let=6, env=6, evalq=3, lamcall=6),
    "C11": dict(restr=16, evalq=4, lamcall=5, let=5, mac=4, applyf=3, hof=3, closure=4, env=2, shadow=2),
    "C17": dict(env=18, evalq=6, lamcall=5, let=5, closure=5, set=6),
    "C24": dict(call=16, closure=6, lamcall=5, let=6, letrec=2, nlet=2, do=2, hof=4, mac=4, quasi=2, probe=9, set=6, onerr=.6, err=.1, badtype=.1, badarity=.1, unbound=.1, special=0, chain=.6),
    "C18": dict(hof=22, probe=8, applyf=6, lst=6, err=2, onerr=3, special=1),
}
VARS = ["x", "y", "z", "a", "b", "n"]
SHADOW = ["list", "car", "+", "cdr", "not", "if", "cons", "map", "nil", "define", "quote", "pi", "length", "let"]
RESTR = ["(system-global-environment)", "(environment-parent (the-environment))", "(make-top-level-environment)",
         "(make-top-level-environment '(x) '(1))", "(find-top-level-environment \"nosuch\")", "(global-eval '(define zz 1))", "(global-eval 'x)", "(open-input-file \"/nosuch/file\")",
         "(load \"/nosuch/file\")", "(write-bytes 1 2)", "(close-port 1)", "(debug-on-error)", "(add-debug-on-entry 1)", "(open-output-file \"/nosuch/dir/f\")",
         "(panic! \"boo\")", "(exec \"/nosuch/cmd\")"]


class Gen:
    def __init__(self, seed, profile):
        self.r = random.Random(seed)
        w = dict(BASE)
        w.update(PROFILES[profile])
        self.profile = profile
        self.names, self.weights = list(w), [w[k] for k in w]
        self.k = 0
        self.fns = {}     # name -> (required, rest)
        self.macs = {}
        self.envs = []
        self.macdepth = 0

    def pick(self, *a): return self.r.choice(a)

    def chance(self, p): return self.r.random() < p

    def id(self):
        self.k += 1
        return self.k

    def lit(self): return str(self.r.choice([0, 1, 2, 3, 5, -1, 7]))

    def var(self, sc):
        if sc and self.chance(.95): return self.r.choice(sc)
        return self.r.choice(VARS)

    def datum(self, d=2):
        if d == 0 or self.chance(.5): return self.pick(self.lit(), "x", "a", "foo", "#t", "#f", "\"s\"", "()")
        return "(" + " ".join(self.datum(d - 1) for _ in range(self.r.randint(0, 3))) + (" . " + self.pick("1", "x") if False else "") + ")"

    def body(self, d, sc, lo=1):
        out, sc = [], list(sc)
        if self.chance(.2):
            v = self.r.choice(VARS)
            out.append("(define %s %s)" % (v, self.e(d - 1, sc)))
            sc.append(v)
        if self.chance(.08):
            n = self.r.choice(["f", "g", "h", "k"])
            out.append("(define (%s %s) %s)" % (n, v2 if (v2 := self.r.choice(VARS)) else "", self.e(d - 1, sc + [v2])))
        for _ in range(self.r.choice([1, 1, 1, 2, 2, 3]) - (0 if lo else self.r.randint(0, 1))):
            out.append(self.e(d, sc))
        return " ".join(out)

    def e(self, d, sc):
        if d <= 0:
            return self.pick(self.lit(), self.var(sc), self.var(sc), self.var(sc), "(vprobe %d %s)" % (self.id(), self.var(sc)), "(vprobe %d)" % self.id())
        p = self.r.choices(self.names, self.weights)[0]
        return getattr(self, "p_" + p)(d - 1, sc)

    def es(self, n, d, sc): return " ".join(self.e(d, sc) for _ in range(n))

    def p_lit(self, d, sc): return self.lit()
    def p_var(self, d, sc): return self.var(sc)
    def p_unbound(self, d, sc): return self.pick("(set! nowhere %s)" % self.e(d, sc), "nowhere", "(nowhere %s)" % self.e(d, sc))
    def p_probe(self, d, sc): return self.pick("(vprobe %d %s)" % (self.id(), self.e(d, sc)), "(vprobe %s)" % self.e(d, sc), "(vprobe (list %d %s))" % (self.id(), self.var(sc)))
    def p_arith(self, d, sc):
        o = self.pick("+", "+", "-", "*")
        return "(%s %s)" % (o, self.es(self.r.choice([2, 2, 2, 3] if o == "-" else [1, 2, 2, 2, 3]), d, sc))
    def p_cmp(self, d, sc): return "(%s %s)" % (self.pick("<", ">", "<=", ">=", "==", "eq?"), self.es(2, d, sc))
    def t(self, d, sc): return self.pick(self.p_cmp(d, sc), self.p_cmp(d, sc), "#t", "#f", self.e(d, sc), "(vprobe %d %s)" % (self.id(), self.pick("#t", "#f", "'()")))
    def p_iff(self, d, sc): return "(if %s %s)" % (self.t(d, sc), self.es(self.r.choice([1, 2, 2, 2]), d, sc))

    def p_cond(self, d, sc):
        cs = ["(%s %s)" % (self.t(d, sc), self.body(d, sc, 0) if self.chance(.9) else "") for _ in range(self.r.randint(0, 3))]
        if self.chance(.6): cs.append("(else %s)" % self.body(d, sc))
        if self.chance(.05): cs.insert(self.r.randint(0, len(cs)), self.pick("5", "()", "x"))
        return "(cond %s)" % " ".join(cs)

    def p_case(self, d, sc):
        cs = ["((%s) %s)" % (" ".join(self.pick("0", "1", "2", "3", "x", "#t", "()", "(1 2)") for _ in range(self.r.randint(0, 3))), self.body(d, sc)) for _ in range(self.r.randint(1, 3))]
        if self.chance(.6): cs.append("(else %s)" % self.body(d, sc))
        if self.chance(.05): cs.insert(0, self.pick("5", "()", "(5 1)"))
        return "(case %s %s)" % (self.pick(self.e(d, sc), "(quote x)", self.lit()), " ".join(cs))

    def p_andor(self, d, sc): return "(%s%s)" % (self.pick("and", "or"), "".join(" " + self.pick(self.t(d, sc), self.e(d, sc)) for _ in range(self.r.choice([0, 1, 2, 2, 3, 3]))))
    def p_when(self, d, sc): return "(%s %s %s)" % (self.pick("when", "unless"), self.t(d, sc), self.body(d, sc, 0))
    def p_begin(self, d, sc): return "(begin %s)" % self.es(self.r.choice([1, 2, 2, 3]), d, sc)

    def p_let(self, d, sc):
        kind = self.pick("let", "let*")
        n = self.r.choice([0, 1, 1, 2, 2, 3])
        vs = [self.r.choice(VARS) for _ in range(n)]
        bs, cur = [], list(sc)
        for v in vs:
            bs.append("(%s %s)" % (v, self.e(d, cur)) if self.chance(.95) else "(%s)" % v)
            if kind == "let*": cur = cur + [v]
        return "(%s (%s) %s)" % (kind, " ".join(bs), self.body(d, sc + vs))

    def p_letrec(self, d, sc):
        v = self.pick("f", "g", "h")
        old = dict(self.fns)
        self.fns[v] = (1, False)
        a = self.r.choice(VARS)
        s = "(letrec ((%s (lambda (%s) (if (< %s 1) %s (%s (- %s 1))))) (%s %s)) %s)" % (v, a, a, self.e(d - 1, sc + [a]), v, a, self.r.choice(VARS), self.e(d, sc), self.body(d, sc) + " (%s %s)" % (v, self.pick("0", "2", "3")))
        self.fns = old
        return s

    def p_nlet(self, d, sc):
        v, w = self.r.sample(VARS, 2)
        return "(let loop ((%s 0) (%s %s)) (if (< %s %d) %s (loop (+ %s 1) %s)))" % (v, w, self.e(d, sc), v, self.r.choice([1, 2, 3]),
               "(begin %s (loop (+ %s 1) %s))" % (self.e(d - 1, sc + [v, w]), v, self.e(d - 1, sc + [v, w])), v, self.var(sc + [w])) if False else \
               "(let loop ((%s %d) (%s %s)) (if (< %s 1) %s (loop (- %s 1) %s)))" % (v, self.r.choice([0, 1, 2, 3]), w, self.e(d, sc), v, self.e(d - 1, sc + [v, w]), v, self.e(d - 1, sc + [v, w]))

    def p_do(self, d, sc):
        v, w = self.r.sample(VARS, 2)
        step = " " + self.e(d - 1, sc + [v, w]) if self.chance(.8) else ""
        return "(do ((%s 0 (+ %s 1)) (%s %s%s)) ((%s %s %d)%s) %s)" % (v, v, w, self.e(d, sc), step, self.pick(">", ">="), v, self.r.choice([0, 1, 2, 3]),
               " " + self.e(d - 1, sc + [v, w]), self.body(d - 1, sc + [v, w], 0))

    def params(self):
        n = self.r.choice([0, 1, 1, 2, 2, 3])
        ps = self.r.sample(VARS, n)
        rest = self.r.choice([v for v in VARS if v not in ps]) if self.chance(.2) else None
        s = "(" + " ".join(ps) + (" . " + rest if rest else "") + ")" if not (rest and not ps) else "(. %s)" % rest
        return s, n, rest, ps + ([rest] if rest else [])

    def args(self, n, rest, d, sc):
        k = n + (self.r.randint(0, 2) if rest else 0)
        return "".join(" " + self.e(d, sc) for _ in range(k))

    def lam(self, d, sc, n=None):
        if n is None:
            s, n, rest, vs = self.params()
            if rest and n == 0: s, rest, n = "(%s)" % rest, None, 1
        else:
            vs = self.r.sample(VARS, n)
            s, rest = "(" + " ".join(vs) + ")", None
        return "(lambda %s %s)" % (s, self.body(d, sc + vs)), n, rest

    def p_lamcall(self, d, sc):
        l, n, rest = self.lam(d, sc)
        return "(%s%s)" % (l, self.args(n, rest, d, sc))

    def p_call(self, d, sc):
        if not self.fns: return self.p_lamcall(d, sc)
        f = self.r.choice(list(self.fns))
        n, rest = self.fns[f]
        return "(%s%s)" % (f, self.args(n, rest, d, sc))

    def p_closure(self, d, sc):
        v = self.r.choice(VARS)
        return self.pick("(let ((%s %s)) (lambda () (set! %s (+ %s 1)) %s))" % (v, self.e(d, sc), v, v, v),
                         "(let* ((%s %s) (f (lambda (d) (set! %s (+ %s d)) %s))) (f 1) (list (f %s) %s))" % (v, self.e(d, sc), v, v, v, self.e(d - 1, sc), v),
                         "(map (lambda (k) (k)) (map (lambda (%s) (lambda () %s)) '(1 2)))" % (v, self.e(d - 1, sc + [v])))

    def p_set(self, d, sc): return "(set! %s %s)" % (self.var(sc), self.e(d, sc))
    def p_lst(self, d, sc): return self.pick("(list%s)" % "".join(" " + self.e(d, sc) for _ in range(self.r.randint(0, 3))), "(cons %s %s)" % (self.e(d, sc), self.l(d, sc)), self.l(d, sc), "(append %s %s)" % (self.l(d, sc), self.l(d, sc)))
    def l(self, d, sc): return self.pick("'(" + " ".join(self.lit() for _ in range(self.r.randint(0, 4))) + ")", "(list %s)" % self.es(self.r.randint(1, 3), d - 1, sc), self.pick("'()", "'(1 (2) x)", self.var(sc)))
    def p_acc(self, d, sc): return "(%s %s)" % (self.pick("car", "cdr", "cadr", "length", "reverse", "null?", "first", "second"), self.l(d, sc))

    def handler(self, d, sc, n=1):
        """an expression for a handler: working out the handler itself may have effects, or fail"""
        h = self.handler0(d, sc, n)
        return self.pick(h, h, h, "(begin (vprobe %d) %s)" % (self.id(), h), "(vprobe %d %s)" % (self.id(), h), "(begin (set! %s %s) %s)" % (self.var(sc), self.lit(), h),
                         "(if %s %s %s)" % (self.t(0, sc), h, h), "(begin %s (error \"no handler\") %s)" % (self.e(0, sc), h) if self.chance(.3) else h)

    def handler0(self, d, sc, n=1):
        if n == 0: return "(lambda () %s)" % self.body(d, sc)
        v = self.r.choice(VARS)
        return self.pick("(lambda (%s) %s)" % (v, self.body(d, sc)), "(lambda (%s) (vprobe %d) %s)" % (v, self.id(), self.e(d, sc)), "(lambda (m) (vprobe (string? m)) %s)" % self.e(d, sc))

    def p_onerr(self, d, sc):
        x = self.pick(self.e(d, sc), self.e(d, sc), "(begin %s (error \"boo\"))" % self.e(d, sc), self.p_err(d, sc))
        if self.chance(.06): return "(on-error (error \"m%d\") (lambda (m) (substring? \"m%d\" m)))" % (d, d)
        h = self.handler(d, sc) if self.chance(.95) else self.pick("5", "(lambda () 1)", "(lambda (a b) 1)", "nowhere", "(vprobe %d car)" % self.id())
        if self.chance(.4): return "(on-error %s %s %s)" % (x, h, self.handler(d, sc, 0) if self.chance(.95) else self.pick("5", "(lambda (a) 1)"))
        return "(on-error %s %s)" % (x, h)

    def p_err(self, d, sc): return self.pick("(error \"boo\")", "(error %s)" % self.e(d, sc), "(begin %s (error \"b\") %s)" % (self.e(d, sc), self.e(d, sc)))
    def p_badtype(self, d, sc): return self.pick("(+ %s 'q)" % self.e(d, sc), "(%s %s)" % (self.lit(), self.e(d, sc)), "(\"s\" %s)" % self.e(d, sc), "(< 1 '())", "(set! 5 %s)" % self.e(d, sc), "(define 5 %s)" % self.e(d, sc), "(let 5 %s)" % self.e(d, sc),
                                                    "(let (5) %s)" % self.e(d, sc), "(map 5 '(1))", "(apply car %s)" % self.e(d, sc), "(let ((5 %s)) 1)" % self.e(d, sc))

    def p_badarity(self, d, sc):
        if self.fns and self.chance(.6):
            f = self.r.choice(list(self.fns))
            n, rest = self.fns[f]
            k = self.r.choice([j for j in range(0, 5) if j != n]) if not rest else max(0, n - 1)
            return "(%s%s)" % (f, "".join(" " + self.e(d, sc) for _ in range(k)))
        return self.pick("(car %s)" % self.es(2, d, sc), "(if %s)" % self.e(d, sc), "(vprobe %s)" % self.es(3, d, sc), "(cons %s)" % self.e(d, sc), "((lambda (a b) %s) %s)" % (self.e(d, sc), self.e(d, sc)), "(not)", "(set! x)", "(when)", "(lambda)", "(on-error %s)" % self.e(d, sc), "(begin)", "(let ((x %s)))" % self.e(d, sc))

    def p_special(self, d, sc): return self.pick("(map if '(#t #f) '(1 2) '(3 4))", "(apply and (list %s))" % self.es(2, d, sc), "(let ((q if)) (q %s %s %s))" % (self.t(d, sc), self.e(d, sc), self.e(d, sc)), "(apply quote (list %s))" % self.e(d, sc), "(map quote %s)" % self.l(d, sc))

    def p_chain(self, d, sc):
        st = lambda: self.pick("succ", "(+ %s)" % self.e(d, sc), "(list %s)" % self.e(d, sc), "list", "((lambda (q) q))", self.lam(d - 1, sc, 1)[0] if False else "vprobe", "(vprobe %s)" % self.var(sc), "length")
        return "(%s %s %s)" % (self.pick("->", "=>"), self.e(d, sc), " ".join(st() for _ in range(self.r.randint(0, 3))))

    def tmpl(self, d, sc, lv=1):
        k = self.r.random()
        if d < 0 or k < .25: return self.pick(self.lit(), "x", "a", "foo", "()", "#t", "\"s\"")
        if k < .5:
            return ("," + self.e(d, sc)) if lv == 1 else (self.pick(",", ",", ",@") + self.tmpl(d - 1, sc, lv - 1))
        if k < (.6 if lv == 1 else .63): return "`" + self.tmpl(d if lv == 1 else d - 1, sc, lv + 1)
        els = []
        for _ in range(self.r.randint(0, 4)):
            if self.chance(.25): els.append(",@" + (self.l(d, sc) if lv == 1 else self.tmpl(d - 1, sc, lv - 1)))
            else: els.append(self.tmpl(d - 1, sc, lv))
        s = " ".join(els)
        if els and self.chance(.12): s += " . " + self.pick("1", "," + self.var(sc) if lv == 1 else "x", "x")
        return "(" + s + ")"

    def p_quasi(self, d, sc): return "`" + self.tmpl(d + 1, sc)
    def p_quote(self, d, sc): return "(quote %s)" % self.datum(2)

    def p_mac(self, d, sc):
        if not self.macs: return self.p_quasi(d, sc)
        m = self.r.choice(list(self.macs))
        n, rest = self.macs[m]
        if self.macdepth > 1: return self.lit()
        self.macdepth += 1
        k = n + (self.r.randint(0, 2) if rest else 0) + (self.pick(1, -1) if self.chance(.06) and n > 0 else 0)
        s = "(%s%s)" % (m, "".join(" " + self.e(min(d, 1), sc) for _ in range(k)))
        self.macdepth -= 1
        return "(expand %s" % s[1:] if self.chance(.15) else s

    def p_evalq(self, d, sc): return self.pick("(eval '%s)" % self.e(d, sc), "(eval (list '+ 1 %s))" % self.e(d, sc), "(eval `(+ 1 ,%s))" % self.e(d, sc), "(eval %s)" % self.e(d, sc))
    def p_applyf(self, d, sc):
        f, n = self.fnval(d, sc, self.r.choice([0, 1, 2, 3]))
        k = self.r.randint(0, n)
        return "(apply %s %s(list%s))" % (f, "".join(self.e(d, sc) + " " for _ in range(k)), "".join(" " + self.e(d, sc) for _ in range(n - k)))

    def fnval(self, d, sc, n):
        """an expression whose value is a function of n arguments"""
        prim = {0: ["+", "list", "*"], 1: ["list", "not", "null?", "succ", "vprobe", "car", "length", "integer?", "symbol?"], 2: ["+", "-", "*", "list", "cons", "eq?", "<", "vprobe"], 3: ["+", "list", "*"]}
        k = self.r.random()
        if k < .25: return self.r.choice(prim.get(n, ["+", "list"])), n
        if k < .33 and self.fns: return self.r.choice(list(self.fns)), n
        if k < .38: return self.pick("5", "nowhere", "(lambda (a b c d) 1)", "'car"), n
        l, _, _ = self.lam(d - 1, sc, n)
        return l, n

    def pred(self, d, sc):
        v = self.r.choice(VARS)
        k = self.r.random()
        if k < .3: return "(lambda (%s) (vprobe (list %d %s)) (%s %s %s))" % (v, self.id(), v, self.pick("<", ">", "==", "eq?"), v, self.lit())
        if k < .5: return "(lambda (%s) (vprobe %s) (integer? %s))" % (v, v, v)
        if k < .7: return self.pick("integer?", "null?", "symbol?", "even?", "not", "list?")
        if k < .8: return "(lambda (%s) (if (eq? %s %s) (error \"boo\") (vprobe %s #t)))" % (v, v, self.lit(), v)
        return self.fnval(d, sc, 1)[0]

    def p_hof(self, d, sc):
        k = self.pick("map", "map", "for-each", "any", "every", "filter", "remove", "find", "find-tail", "memp", "partition", "reduce", "reduce-left", "reduce-right", "fold-left", "fold-right", "map2", "for2", "any2", "every2", "map3", "partition-n")
        if k in ("map", "for-each"): return "(%s %s %s)" % (k, self.fnval(d, sc, 1)[0], self.l(d, sc))
        if k in ("map2", "for2"): return "(%s %s %s %s)" % (self.pick("map", "for-each"), self.fnval(d, sc, 2)[0], self.l(d, sc), self.l(d, sc))
        if k == "map3": return "(%s %s %s %s %s)" % (self.pick("map", "for-each", "any", "every"), self.fnval(d, sc, 3)[0], self.l(d, sc), self.l(d, sc), self.l(d, sc))
        if k in ("any", "every"): return "(%s %s %s)" % (k, self.pred(d, sc), self.l(d, sc))
        if k in ("any2", "every2"): return "(%s %s %s %s)" % (k[:-1], self.fnval(d, sc, 2)[0], self.l(d, sc), self.l(d, sc))
        if k == "partition-n": return "(partition %s %s)" % (self.pick("1", "2", "3", "0", "-1"), self.l(d, sc))
        if k in ("reduce", "reduce-left", "reduce-right", "fold-left", "fold-right"): return "(%s %s %s %s)" % (k, self.fnval(d, sc, 2)[0], self.e(d, sc), self.l(d, sc))
        return "(%s %s %s)" % (k, self.pred(d, sc), self.l(d, sc))

    def envx(self, d, sc):
        c = ["(the-environment)", "(procedure-environment %s)" % (self.r.choice(list(self.fns)) if self.fns else "(lambda () 1)")]
        c += self.envs * 2
        c += ["(make-top-level-environment '(%s y) (list %s %s))" % (self.pick("x", "a"), self.e(d - 1, sc), self.e(d - 1, sc)), "(make-top-level-environment)", "(make-top-level-environment '(x))",
              "(procedure-environment (let ((%s %s)) (lambda () x)))" % (self.r.choice(VARS), self.e(d - 1, sc)), "(system-global-environment)", "(environment-parent %s)" % (self.envs[0] if self.envs else "(the-environment)")]
        return self.r.choice(c)

    def esym(self): return self.r.choice(VARS + ["f", "car", "if", "m1", "nowhere", "list"] + (SHADOW if self.profile == "C10" else []))

    def p_env(self, d, sc):
        E = self.envx(d, sc)
        k = self.r.randint(0, 13)
        if self.profile == "C10" and self.chance(.4): E = self.pick("(system-global-environment)", "(environment-parent (the-environment))")
        # never define in the global scope anything but builtins' names (those must be refused)
        glob = "global" in E or "parent" in E
        s = self.r.choice(SHADOW) if glob else self.esym()
        if k <= 2: return "(environment-assign! %s '%s %s)" % (E, s, self.e(d, sc))
        if k <= 4: return "(environment-define %s '%s %s)" % (E, s, self.e(d, sc))
        if k == 5: return "(eval '%s %s)" % (self.e(d - 1, VARS) if not glob else self.pick("x", "(car '(1))", "(define car 1)", "(set! list 2)", "(define (cdr x) 1)", "(defmacro (if a b) 1)", "(define nil 3)", "(set! nil 1)"), E)
        if k == 6: return "(list %s)" % " ".join("(%s %s '%s)" % (o, E, s) for o in ("environment-bound?", "environment-assignable?", "environment-definable?"))
        if k == 7: return "(environment-lookup %s '%s)" % (E, self.esym())
        if k == 8: return "(%s %s '%s)" % (self.pick("environment-reference-type", "environment-assigned?", "environment-lookup-macro"), E, self.esym())
        if k == 9: return "(%s %s)" % (self.pick("environment?", "environment-has-parent?"), self.pick(E, E, "5"))
        if k == 10: return "(begin (make-top-level-environment \"T%d\" '(x) (list %s)) (eval 'x (find-top-level-environment \"T%d\")))" % (self.r.randint(1, 2), self.e(d, sc), self.r.randint(1, 2)) if self.chance(.3) else E
        if k in (12, 13) and not glob:
            x = self.esym()
            return self.pick("(length (environment-bound-names %s))" % E, "(list? (memq '%s (environment-bound-names %s)))" % (x, E), "(list? (memq '%s (environment-macro-names %s)))" % (x, E), "(length (environment-macro-names %s))" % E,
                             "(find (lambda (q) (eq? (car q) '%s)) (environment-bindings %s))" % (x, E), "(length (environment-bindings %s))" % E)
        return self.pick("(environment-bound? %s 5)" % E, "(environment-assign! 5 'x 1)", "(environment-lookup %s)" % E, "(environment-define '() 'x 1)", "(environment-assign! %s \"x\" 1)" % E)

    def p_restr(self, d, sc):
        k = self.r.randint(0, 9)
        if k <= 1: return "(restrict-environment)"
        if k == 2: return "(let ((%s %s)) (restrict-environment) %s)" % (self.r.choice(VARS), self.lit(), self.body(d, sc))
        x = self.r.choice(RESTR[:4])
        y = self.r.choice(RESTR)
        if k == 3: return x
        if k == 4: return "((lambda () %s))" % x
        if k == 5: return self.pick("(apply system-global-environment '())", "(map make-top-level-environment)", "(let ((q environment-parent)) (q (the-environment)))", "(apply global-eval '(1))", "(map global-eval '(1 2))", "(let ((ge global-eval)) (ge '(+ 1 2)))", "(apply global-eval (list (vprobe %d)))" % self.id())
        if k == 6: return "(begin (restrict-environment) %s)" % y
        if k == 7: return "(begin (restrict-environment) (on-error %s (lambda (m) 'refused)))" % y
        if k == 8: return "((lambda (%s) (restrict-environment) (list (on-error %s (lambda (m) 'no)) %s)) %s)" % (self.r.choice(VARS), y, self.e(d, sc), self.lit())
        return "(eval '%s)" % x

    def p_shadow(self, d, sc):
        v = self.r.choice(SHADOW)
        k = self.r.randint(0, 8)
        if k == 0: return "(let ((%s %s)) %s)" % (v, self.e(d, sc), self.pick(self.body(d, sc), v, "(list %s %s)" % (v, self.e(d, sc))))
        if k == 1: return "((lambda (%s) %s) %s)" % (v, self.pick(self.body(d, sc), v), self.e(d, sc))
        if k == 2: return "(set! %s %s)" % (v, self.e(d, sc))
        if k == 3: return "(begin (define %s %s) %s)" % (v, self.e(d, sc), v)
        if k == 4: return "(define (%s a) %s)" % (v, self.e(d, sc))
        if k == 5: return "(defmacro (%s a) `(quote ,a))" % v
        if k == 6: return "(let () (define %s %s) (set! %s %s) %s)" % (v, self.e(d, sc), v, self.e(d, sc), v)
        if k == 7: return "(global-eval '%s)" % self.pick("(define %s 7)" % v, "(set! %s 7)" % v, "(define (%s) 7)" % v, "(defmacro (%s) 7)" % v, v if v not in ("pi",) else "car")
        return "(let ((%s (lambda %s %s))) (%s %s))" % (v, "(. a)", self.pick("a", "7"), v, self.e(d, sc))

    # ---------------------------------------------------------------- top level
    def top(self, j):
        k = self.r.random()
        if j < 2 or k < .12:
            v = self.r.choice(VARS)
            return "(define %s %s)" % (v, self.e(2, VARS))
        if k < .3:
            n = self.r.choice(["f", "g", "h", "k"])
            s, a, rest, vs = self.params()
            # a function calls only functions defined before it, or itself going down
            s = s[1:-1]
            self_ok = self.fns.pop(n, None)
            if a >= 1 and not rest and self.chance(.25):
                b = "(if (< %s 1) %s (%s%s))" % (vs[0], self.e(2, VARS + vs), n, " (- %s 1)" % vs[0] + "".join(" " + self.e(1, VARS + vs) for _ in range(a - 1)))
            else:
                b = self.body(3, VARS + vs)
            self.fns = {n: (a, bool(rest))} if self_ok else dict(self.fns, **{n: (a, bool(rest))})
            return "(define (%s%s) %s)" % (n, " " + s if s else "", b)
        if k < .3 + (.25 if self.profile == "C08" else .06):
            n = self.r.choice(["m1", "m2"])
            ps = self.r.sample(VARS, self.r.choice([0, 1, 1, 2]))
            rest = self.r.choice([v for v in VARS if v not in ps]) if self.chance(.3) else None
            keep = self.macs
            self.macs = {}
            s = " ".join(ps) + (" . " + rest if rest else "")
            sc = ps + ([rest] if rest else [])
            body = "`" + self.mtmpl(2, ps, rest) if self.chance(.85) else self.e(2, VARS + sc)
            self.macs = dict(keep)
            self.macs[n] = (len(ps), bool(rest))
            return "(defmacro (%s%s) %s)" % (n, " " + s.strip() if s else "", body)
        if k < .4 and self.profile in ("C17", "C10", "C11") and len(self.envs) < 3:
            n = "e%d" % (len(self.envs) + 1)
            s = "(define %s %s)" % (n, self.envx(2, VARS))
            if "global" in s or "parent" in s: return self.e(3, VARS)
            self.envs.append(n)
            return s
        if k < .46: return "(define %s %s)" % (self.pick("f", "g", "h"), self.p_closure(2, VARS)) if not self.fns else self.e(4, VARS)
        return self.e(self.r.choice([3, 4, 4, 5]), VARS)

    def mtmpl(self, d, ps, rest):
        """a template that is code using the parameters"""
        def x():
            k = self.r.random()
            if ps and k < .45: return "," + self.r.choice(ps)
            if rest and k < .6: return "(list ,@%s)" % rest
            if k < .7: return "(vprobe %d)" % self.id()
            return self.pick(self.lit(), "x", "y", "a")
        return self.pick("(+ %s %s)" % (x(), x()), "(begin %s %s)" % (x(), x()), "(if %s %s %s)" % (x(), x(), x()), "(let ((x %s)) (list x %s))" % (x(), x()),
                         "(set! %s %s)" % (self.pick("x", "y"), x()), "(quote %s)" % x(), "(list %s%s)" % (x(), " ,@" + rest if rest else ""), "(list (quote %s) %s)" % (x(), x()),
                         "(lambda (a) %s)" % x(), "((lambda (y) %s) %s)" % (x(), x()), "(begin (define %s %s) %s)" % (self.pick("x", "z"), x(), x()), "`(1 ,,%s)" % ps[0] if ps else "`(1 ,x)", "(vprobe %s)" % x())

    def session(self, ident):
        self.k, self.fns, self.macs, self.envs, self.macdepth = 0, {}, {}, [], 0
        n = self.r.randint(5, 12)
        out = []
        for j in range(n):
            t = self.top(j)
            if len(t) < 900:
                out.append(form(t))
        return dict(id=ident, f=out)


SHARED = ["(define (fib n) (if (< n 2) n (+ (fib (- n 1)) (fib (- n 2)))))",
          "(define (mk x) (lambda (d) (set! x (+ x d)) x))",
          "(define (rest a . r) (let ((t (map (lambda (e) (+ e a)) r))) (vprobe (list a r)) (list a t)))",
          "(define (count n) (let loop ((i 0) (acc '())) (if (>= i n) acc (loop (+ i 1) (cons (vprobe (* i n)) acc)))))",
          "(define (sum l) (do ((l l (cdr l)) (s 0 (+ s (car l)))) ((eq? (length l) 0) s) (vprobe s)))",
          "(define (ev n) (if (< n 1) #t (od (- n 1))))", "(define (od n) (if (< n 1) #f (ev (vprobe (- n 1)))))",
          "(define (pairs n) (define (inc) (set! n (+ n 1)) n) (list inc (lambda () n)))",
          "(defmacro (twice e) `(list ,e ,e))", "(defmacro (swap! a b) `(let ((t ,a)) (set! ,a ,b) (set! ,b t)))",
          "(defmacro (while2 n . body) `(do ((k 0 (+ k 1))) ((>= k ,n) 'done) ,@body))",
          "(define (order a b c) (vprobe a) (let* ((d (+ a b)) (e (vprobe (+ d c)))) (list a b c d e)))",
          "(define (guard x) (on-error (if (< x 2) (error \"low\") (vprobe x)) (lambda (m) (vprobe (list 'low x)) x)))",
          "(define (tree n) (if (< n 1) n (list (tree (- n 1)) (vprobe n) (tree (- n 2)))))",
          "(define (hof f . xs) (apply + (map (lambda (x) (f (vprobe x))) xs)))",
          "(define (build n) `(n ,n ,@(count n) (m ,(+ n 1))))"]
USES = ["(fib {a})", "(define c (mk {a}))", "(c {b})", "(list (c 1) (c {a}) (c 1))", "(rest {a} {b} {c})", "(rest {a})", "(count {a})", "(sum '({a} {b} {c}))",
        "(list (ev {a}) (od {a}))", "(define p (pairs {a}))", "(list ((car p)) ((cadr p)) ((car p)))", "(twice (fib {a}))", "(define u {a})", "(define v {b})", "(begin (swap! u v) (list u v))",
        "(while2 {a} (vprobe k) (set! u (+ u k)))", "(order {a} {b} {c})", "(guard {a})", "(tree {a})", "(hof fib {a} {b})", "(hof (mk {a}) {b} {c} {a})", "(build {a})",
        "(let ((x {a}) (y {b})) (set! x (+ x (fib {c}))) (list x y (order x y {a})))", "(map (lambda (q) (rest q {a} q)) '({a} {b} {c}))",
        "(let loop ((i {a}) (k (mk {b}))) (if (< i 1) (k 0) (begin (k i) (loop (- i 1) k))))", "(define (mine n) (if (< n 1) '() (cons (vprobe (+ n {a})) (mine (- n 1)))))", "(mine {b})",
        "(eval (list 'fib {a}))", "((lambda (x . y) (vprobe y) (fib {a}) (list x y)) {b} {c} {a})", "(filter (lambda (x) (> (order x 1 2) {a})) '({a} {b} {c}))"]


def groups(seed, n):
    """Groups for LispConc: a prelude of definitions, and sessions that use them."""
    g = Gen("C24-%s" % seed, "C24")
    r = g.r
    out = []
    for k in range(n):
        g.k, g.fns, g.macs, g.envs, g.macdepth = 0, {}, {}, [], 0
        if k % 2:
            f = [form(t) for t in SHARED]
            gs = []
            for _ in range(r.randint(3, 6)):
                ts = ["(define u {a})", "(define v {b})", "(define c (mk {a}))", "(define p (pairs {a}))", "(define (mine n) (if (< n 1) '() (cons (vprobe (+ n {a})) (mine (- n 1)))))"]
                ts += [r.choice(USES) for _ in range(r.randint(5, 10))]
                gs.append([form(t.format(a=r.randint(0, 5), b=r.randint(0, 7), c=r.randint(0, 6))) for t in ts])
        else:
            f = [t for t in (g.top(j) for j in range(r.randint(5, 9))) if len(t) < 900]
            f = [form(t) for t in f]
            fns, macs, gs = g.fns, g.macs, []
            for _ in range(r.randint(4, 6)):
                g.fns, g.macs = dict(fns), dict(macs)
                ts = ["(define %s %s)" % (v, g.lit()) for v in VARS] + [g.top(2 + j) for j in range(r.randint(3, 8))]
                gs.append([form(t) for t in ts if len(t) < 900])
        out.append(dict(id="g%d" % k, f=f, g=gs))
    return out


def sessions(profile, seed, n):
    g = Gen("%s-%s" % (profile, seed), profile)
    return [g.session("%s-%d" % (profile, k)) for k in range(n)]


# Small alphabets: every session over them up to a length is explored.
ALPHABET = {
"C06": ["""(define x 1)
(set! x (+ x 1))
(list x y)
(define (f) x)
(define (f) (set! x (+ x 10)) x)
(f)
(let ((x 5) (y x)) (list x y (f)))
(let* ((x 5) (y x)) (set! x 6) (list x y (f)))
(define g (let ((x 100)) (lambda () (set! x (+ x 1)) x)))
(list (g) (g))
(let ((x 7)) (define x 8) (set! x (+ x 1)) (define y x) (list x y (f)))
((lambda (x) (set! x (+ x 3)) (list x (f))) 4)
(define h (let* ((x 20) (y x)) (list (lambda (v) (set! x v)) (lambda () (list x y)))))
(list ((cadr h)) ((car h) 30) ((cadr h)))
(define (f) (define y (let ((z x)) (lambda (d) (set! z (+ z d)) z))) (define x (y 1)) (list x (y 2)))""",
        """(define x 1)
(define ks (map (lambda (x) (lambda () (set! x (+ x 1)) x)) '(1 2)))
(map (lambda (k) (k)) ks)
(define ks (let loop ((x 2) (acc '())) (if (< x 1) acc (loop (- x 1) (cons (lambda () (set! x (+ x 1)) x) acc)))))
(define ks (do ((x 0 (+ x 1)) (acc '() (cons (lambda () (set! x (+ x 1)) x) acc))) ((>= x 2) acc) (vprobe x)))
(letrec ((x 3) (a (lambda (n) (if (< n 1) (list x n) (b (- n 1))))) (b (lambda (n) (set! x n) (a n)))) (list (a 2) x))
(define (mk x) (define (inc) (set! x (+ x 1)) x) (list inc (lambda () x)))
(define p (mk 5))
(define q (mk 5))
(list ((car p)) ((cadr p)) ((cadr q)))
(define (r x . y) (set! y (cons x y)) (lambda (z) (set! x (+ x z)) (cons x y)))
((r x 1 2) 3)
(define x (r 7))
(x 1)
(define (rec n) (let ((m (* n 2))) (if (< n 1) (list m) (let ((t (rec (- n 1)))) (cons m t)))))
(rec 3)
(eval '(set! x 9))
(eval (list 'lambda '() 'x))"""],
"C07": ["""((vprobe list) (vprobe 1) (vprobe 2) (vprobe 3))
(define (f a b) (vprobe (list a b)) b)
(f (vprobe 1) (vprobe 2))
(f (vprobe 1))
(f (vprobe 1) (vprobe 2) (vprobe 3))
(cons (vprobe 1))
(if (vprobe 1 #f) (vprobe 2) (vprobe 3))
(if (vprobe 1 '()) (vprobe 2))
(and (vprobe 1) (vprobe 2 #f) (vprobe 3))
(or (vprobe 1 #f) (vprobe 2) (vprobe 3))
(list (and) (or) (and 1 '()) (or '() #f) (and (vprobe 1) (vprobe 2)))
(cond ((vprobe 1 #f) (vprobe 2)) ((vprobe 3) (vprobe 4) (vprobe 5)) ((vprobe 6) (vprobe 7)) (else (vprobe 8)))
(cond ((vprobe 1 '()) (vprobe 2)) (else (vprobe 3) (vprobe 4)))
(case (vprobe 2) ((1 (vprobe 9)) (vprobe 3)) ((4 2) (vprobe 5) (vprobe 6)) ((2) (vprobe 7)) (else (vprobe 8)))
(case (vprobe 7) ((1) (vprobe 3)) (else (vprobe 4) (vprobe 5)))
(when (vprobe 1) (vprobe 2) (vprobe 3))
(when (vprobe 1 #f) (vprobe 2))
(unless (vprobe 1 #f) (vprobe 2) (vprobe 3))
(unless (vprobe 1) (vprobe 2))
(begin (vprobe 1) (vprobe 2) (vprobe 3))
(do ((i (vprobe 0) (vprobe (+ i 1))) (j (vprobe 10) (vprobe (- j i)))) ((vprobe (> i 1)) (vprobe 'r) (vprobe j)) (vprobe (list i j)) (vprobe 'b))
(let loop ((i (vprobe 1)) (j (vprobe 2))) (if (vprobe (> i 2)) (vprobe j) (loop (vprobe (+ i 1)) (vprobe i))))
(let ((a (vprobe 1)) (b (vprobe 2))) (vprobe a) (vprobe b))
(let* ((a (vprobe 1)) (b (vprobe (+ a 1)))) (vprobe a) (vprobe b))
(letrec ((a (vprobe 1)) (b (vprobe (+ a 1)))) (vprobe (list a b)))
(-> (vprobe 1) (vprobe) (+ (vprobe 2)) vprobe)
(=> (vprobe 1) (vprobe) (+ (vprobe 2)) (list (vprobe 3)))
(-> (vprobe '(a b)) car)
(apply vprobe (list (vprobe 1)))
(define (g . r) (vprobe r))
(g (vprobe 1) (vprobe 2))
(+ (begin (vprobe 1) 1) (begin (vprobe 2) (error "x")) (vprobe 3))
(set! f (vprobe g))
((lambda (a . b) (vprobe b) (vprobe a)) (vprobe 1) (vprobe 2) (vprobe 3))
((begin (vprobe 0) (lambda (a) a)) (vprobe 1) (vprobe 2))
(let ((x (vprobe 1))) (let ((x (vprobe (+ x 1))) (y (vprobe x))) (vprobe (list x y))))
(define v (vprobe 1 (vprobe 2)))
(not (vprobe 1))
(< (vprobe 1) (vprobe 2))
(eval (vprobe '(vprobe 5)))
(vprobe `(1 ,(vprobe 2) ,@(vprobe '(3)) ,(vprobe 4)))"""],
"C08": ["""(define x 1)
(define y '(1 2))
(defmacro (m a) `(list ,a ,a))
(defmacro (m a . r) `(list 'a ,@r ,a))
(defmacro (m a) (vprobe a))
(defmacro (m a) `(let ((x 50)) (list x ,a)))
(defmacro (m a) `(set! x ,a))
(defmacro (m . r) `(begin ,@r))
(m (vprobe x))
(m (vprobe 1) (vprobe 2))
(m)
(let ((x 9) (vprobe list)) (m x))
(let ((list vprobe)) (m 3))
(expand m (vprobe x))
(expand m (vprobe 1) (+ 1 2))
(define z `(x ,x ,@y . ,x))
`(1 `(,x ,,x ,(foo ,x ,@y)))
`(1 `(2 ,@(foo ,x ,@y) ,@,y) ,@`(a ,@(b ,,x) ,x))
`(a `(b ,(c `(d ,@(e ,@y ,x) ,x)) ,@,@(list y x)))
(quote (quasiquote (a (unquote x))))
(eval (expand m x))
(define (f x) `((,x) ,@(list x x) ,@'() . ,(+ x 1)))
(f 3)
(f y)
(defmacro (m2 a b) `(if ,a (m ,b) 'no))
(m2 x (vprobe x))
(map (lambda (x) `(,x ,@(list x))) y)
`,@y
`(,@y ,@y)
`(a . (b ,x))
`(,(vprobe 1) (,(vprobe 2) ,@(vprobe y)) ,(vprobe 3))
(m 'x)
(apply m '(1))
(defmacro (m a) (list 'quote (list a x)))
(let ((x 77)) (m foo))""",
"""(define n 0)
(defmacro (m a) (begin (set! n (+ n 1)) (list '+ a n)))
(defmacro (m a) `(list ,a ,n))
(defmacro (m a) (if (vprobe #t) `(vprobe ,a) 1))
(defmacro (m a . r) (begin (set! n (+ n 1)) `(list ',r ,a)))
(define (f x) (m x))
(define (f n) (let ((x n)) (m (+ x 1))))
(f 5)
(list (f 1) (f 2))
(map f '(1 2))
(do ((i 0 (+ i 1)) (r '() (cons (m i) r))) ((> i 2) r))
(let loop ((i 0)) (if (> i 1) (m i) (begin (m i) (loop (+ i 1)))))
(set! n (+ n 5))
(define c '(m n))
(list (eval c) (eval c))
((lambda (n) (f n)) 7)"""],
"C09": ["""(define x 1)
(begin (set! x (+ x 1)) (error "boo") (set! x 100))
(on-error (begin (set! x (+ x 1)) (error "boo") (set! x 100)) (lambda (m) (vprobe x) x))
(on-error (begin (set! x (+ x 5)) x) (lambda (m) (vprobe 'h)) (lambda () (vprobe 'ok) (set! x 7)))
(on-error (error "boo") (lambda (m) (substring? "boo" m)))
(on-error (on-error (error "in") (lambda (m) (error "out") (vprobe 1))) (lambda (m) (vprobe 2) (substring? "out" m)))
(on-error (on-error (vprobe 1) (lambda (m) (vprobe 2)) (lambda () (error "late"))) (lambda (m) (vprobe 3) 'caught))
(list (vprobe 1) (on-error (list (vprobe 2) (nowhere) (vprobe 3)) (lambda (m) (vprobe 4))) (vprobe 5))
(define (f a) (vprobe a) (if (> a x) (error "big") (begin (f (+ a 1)) (vprobe (list a)))))
(f 0)
(on-error (f 0) (lambda (m) x))
(map (lambda (a) (vprobe a) (if (eq? a 2) (error "two") a)) '(1 2 3))
(let ((x (error "bind"))) (set! x 5))
(let ((y x)) (set! x 3) (car 1 2) (set! x 4))
(set! x (error "no"))
(define x (begin (vprobe 1) (nosuch)))
(do ((i 0 (+ i 1))) ((> i 3) (set! x i)) (vprobe i) (if (eq? i 1) (error "stop")))
(do ((i 0 (+ i 'a))) ((vprobe i #f) 1) (set! x i))
(cond ((vprobe #f) 1) ((error "test") 2) (else (set! x 50)))
(and (vprobe 1) (error "and") (set! x 51))
(case (error "key") ((1) (set! x 52)) (else (set! x 53)))
(when (vprobe #t) (set! x (+ x 1)) (error "in when") (set! x 54))
(defmacro (m a) (error "expansion"))
(m (vprobe 1))
(-> x (error) (vprobe))
`(,(vprobe 1) ,(error "q") ,(vprobe 2))
(apply error '("applied"))
(on-error (error "boo") 5)
(on-error x 5)
(on-error (vprobe 1) (begin (vprobe 'h1) (set! x 60) (lambda (m) 'bad)) (begin (vprobe 'h2) (set! x 61) (lambda () x)))
(on-error (begin (vprobe 1) (error "boo")) (begin (vprobe 'h1) (set! x (+ x 1)) (lambda (m) x)) (begin (vprobe 'h2) (set! x 61) (lambda () 'bad)))
(on-error (error "boo") (begin (vprobe 'h1) (error "handler") (lambda (m) 'bad)) (begin (vprobe 'h2) (lambda () 'bad)))
(on-error (error "boo") (lambda () 1))
(on-error (error "boo") (lambda (m) (vprobe 1)) (lambda () (vprobe 2)))
((lambda (x) (set! x 9) (error "local")) 1)
(reduce (lambda (a b) (vprobe (list a b)) (if (eq? b 3) (error "three") (+ a b))) 0 '(1 2 3 4))
x"""],
"C10": ["""(define car 5)
(set! car 5)
(define (car a) 5)
(defmacro (car a) 5)
(let ((car cdr)) (car '(1 2)))
((lambda (list) (list 1 2)) +)
(let () (define list 7) (set! list 8) list)
(global-eval '(define car 5))
(global-eval '(set! car 5))
(global-eval '(define (car a) 5))
(global-eval '(defmacro (car a) 5))
(global-eval '(define nil 5))
(global-eval '(set! nil 5))
(global-eval '(car '(1 2)))
(set! nil 5)
(environment-assign! (system-global-environment) 'car 5)
(environment-assign! (the-environment) 'car 5)
(environment-define (the-environment) 'car 5)
(environment-define (system-global-environment) 'car 5)
(environment-define (environment-parent (the-environment)) 'if 5)
(environment-assign! (procedure-environment (lambda () 1)) 'list 5)
(eval '(set! car 6) (system-global-environment))
(eval '(define car 6) (system-global-environment))
(define e (make-top-level-environment '(car x) (list 1 2)))
(environment-assign! e 'car 3)
(environment-assign! e 'cdr 3)
(list (eval 'car e) (environment-lookup e 'cdr))
(let ((set! define)) (set! car 9))
(set! if 3)
(define if 3)
(if #t 1 2)
(list car (car '(1 2)) (list 3))"""],
"C11": ["""(restrict-environment)
(define e (make-top-level-environment '(x) '(1)))
(system-global-environment)
((lambda () (system-global-environment)))
(define (f) (environment? (system-global-environment)))
(f)
(define g (let ((y 1)) (lambda (z) (eval z))))
(g '(environment? (system-global-environment)))
(let ((y 1)) (restrict-environment) (on-error (global-eval ''done) (lambda (m) 'refused)))
((lambda (y) (restrict-environment) (list (on-error (environment-parent (the-environment)) (lambda (m) 'no)) (on-error (global-eval 1) (lambda (m) 'no)))) 1)
(eval '(restrict-environment) e)
(eval '(global-eval '(+ 1 2)) e)
(eval '((lambda (q) (global-eval q)) '(+ 1 2)) e)
(eval '(define (h) (global-eval 5)) e)
((eval 'h e))
(apply global-eval '(6))
(map global-eval '(1 2))
(let ((q global-eval)) (q '(+ 1 2)))
(defmacro (m a) `(global-eval ,a))
(m 5)
(defmacro (m2 a) (global-eval a))
(m2 '(quote z))
(on-error (make-top-level-environment) (lambda (m) 'refused))
(procedure-environment f)
(eval '(list (on-error (global-eval 5) (lambda (m) 'no)) (+ 1 2)) (procedure-environment g))
(find-top-level-environment "verif-none-such")
(load "/verif-no-such-file")
(list (on-error (panic! "x") (lambda (m) 'no)) (on-error (open-output-file "/nonexistent/zz") (lambda (m) 'no)) (on-error (write-bytes [1] 5) (lambda (m) 'no)))"""],
"C17": ["""(define x 1)
(define e (make-top-level-environment '(x y) (list 10 20)))
(define e (make-top-level-environment "VerifE" '(x) '(30)))
(define e (make-top-level-environment '(x z)))
(define e (make-top-level-environment '(x z) '(1)))
(define e (procedure-environment (let ((x 40)) (lambda () x))))
(define e (the-environment))
(list x (eval 'x e) (eval 'y e))
(eval '(set! x (+ x 1)) e)
(eval '(define y x) e)
(environment-assign! e 'x 50)
(environment-assign! e 'y 51)
(environment-define e 'y 60)
(environment-define e 'm1 61)
(list (environment-bound? e 'x) (environment-bound? e 'y) (environment-bound? e 'car) (environment-bound? e 'nosuch))
(list (environment-reference-type e 'y) (environment-reference-type e 'm1) (environment-reference-type e 'car))
(environment-lookup e 'x)
(environment-lookup e 'y)
(environment-assigned? e 'y)
(environment-assigned? e 'm1)
(eval '(defmacro (m1 a) `(list ,a x)) e)
(environment-lookup-macro e 'm1)
(eval '(m1 5) e)
(list (length (environment-bound-names e)) (length (environment-macro-names e)) (length (environment-bindings e)))
(list (list? (memq 'y (environment-bound-names e))) (list? (memq 'm1 (environment-macro-names e))) (find (lambda (b) (eq? (car b) 'x)) (environment-bindings e)))
(define (f) (set! x (+ x 100)) x)
(eval '(define (f) (set! x (+ x 1)) x) e)
(list (f) (eval '(f) e) x (eval 'x e))
(define e2 (find-top-level-environment "VerifE"))
(eval '(set! x (* 2 x)) e2)
(eval 'x e2)
(environment-has-parent? e)
(let ((VerifE 1) (verif 2)) (eval '(let ((x 5)) (set! y x)) e))
(eval '(let ((x 3)) (set! x 4) (list x (the-environment))) e)
(the-environment)
(let ((q 1)) (environment? (the-environment)))"""],
"C18": ["""(map (lambda (a b) (vprobe (list a b)) (+ a b)) '(1 2 3) '(10 20))
(for-each (lambda (a) (vprobe a)) '(1 2 3))
(for-each (lambda (a b) (vprobe (list a b))) '(1 2) '(3))
(any (lambda (a) (vprobe a) (> a 1)) '(1 2 3))
(any (lambda (a b) (vprobe (list a b)) (> a b)) '(1 2 3) '(2 1))
(every (lambda (a) (vprobe a) (< a 2)) '(1 2 3))
(list (any vprobe '()) (every vprobe '()) (map vprobe '()) (filter vprobe '()) (remove vprobe '()))
(filter (lambda (a) (vprobe a) (odd? a)) '(1 2 3 4 5))
(remove (lambda (a) (vprobe a) (odd? a)) '(1 2 3 4 5))
(filter (lambda (a) (vprobe a)) '(1 2))
(find (lambda (a) (vprobe a) (> a 1)) '(1 2 3))
(find-tail (lambda (a) (vprobe a) (> a 1)) '(1 2 3))
(memp (lambda (a) (vprobe a) (> a 1)) '(1 2 3))
(find (lambda (a) (vprobe a) #f) '(1 2 3))
(find (lambda (a) (vprobe a)) '(1 2 3))
(partition (lambda (a) (vprobe a) (odd? a)) '(1 2 3 4))
(partition 2 '(1 2 3 4 5))
(reduce (lambda (a b) (vprobe (list a b)) (- a b)) 0 '(1 2 3 4))
(reduce-left (lambda (a b) (vprobe (list a b)) (- a b)) 0 '(1 2 3 4))
(reduce-right (lambda (a b) (vprobe (list a b)) (- a b)) 0 '(1 2 3 4))
(fold-left (lambda (a b) (vprobe (list a b)) (cons b a)) '() '(1 2 3))
(fold-right (lambda (a b) (vprobe (list a b)) (cons a b)) '() '(1 2 3))
(list (reduce + 7 '()) (reduce-right + 7 '()) (fold-left + 7 '()) (fold-right + 7 '()) (reduce vprobe 7 '(9)) (reduce-right vprobe 7 '(9)))
(apply (lambda (a . r) (vprobe r) a) 1 2 '(3 4))
(apply (lambda (a . r) (vprobe r) a) '(1))
(apply list '())
(apply + 1)
(map 5 '(1))
(map vprobe 5)
(map car '(1 2) 5)
(on-error (map (lambda (a) (vprobe a) (if (eq? a 2) (error "x") a)) '(1 2 3)) (lambda (m) 'stopped))
(on-error (fold-right (lambda (a b) (vprobe a) (if (eq? a 2) (error "x") a)) 0 '(1 2 3)) (lambda (m) 'stopped))
(on-error (any (lambda (a) (vprobe a) (if (eq? a 2) (error "x") #f)) '(1 2 3)) (lambda (m) 'stopped))
(on-error (filter (lambda (a) (vprobe a) (if (eq? a 2) (error "x") #f)) '(1 2 3)) (lambda (m) 'stopped))
(on-error (find (lambda (a) (vprobe a) (if (eq? a 2) (error "x") #f)) '(1 2 3)) (lambda (m) 'stopped))
(on-error (find-tail (lambda (a) (vprobe a) (if (eq? a 2) (error "x") #f)) '(1 2 3)) (lambda (m) 'stopped))
(on-error (partition (lambda (a) (vprobe a) (if (eq? a 2) (error "x") #f)) '(1 2 3)) (lambda (m) 'stopped))
(on-error (reduce (lambda (a b) (vprobe b) (if (eq? b 2) (error "x") #f)) 0 '(1 2 3)) (lambda (m) 'stopped))
(on-error (for-each (lambda (a) (vprobe a) (if (eq? a 2) (error "x") #f)) '(1 2 3)) (lambda (m) 'stopped))
(on-error (every (lambda (a) (vprobe a) (if (eq? a 2) (error "x") #t)) '(1 2 3)) (lambda (m) 'stopped))
(map (lambda (a b c) (vprobe (list a b c)) a) '(1 2) '(a b c) '(x y z))
(map list '(1 2) '() '(3))
(map (lambda (a) (map (lambda (b) (vprobe (list a b)) (+ a b)) '(1 2))) '(10 20))
(map if '(#t #f) '(1 2) '(3 4))
(apply if '(#t 1 2))
(map (lambda (a) a) '(() (1) #f x))"""],
}
# how long the sessions are: (quick, thorough) per alphabet
LENGTH = {"C06": (3, 4), "C07": (2, 3), "C08": (4, 4), "C09": (3, 3), "C10": (2, 3), "C11": (3, 4), "C17": (3, 3), "C18": (2, 2)}


def alphabet(profile):
    return [[form(l) for l in a.splitlines() if l.strip()] for a in ALPHABET[profile]]
