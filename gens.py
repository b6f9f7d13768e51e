"""Generators of concurrent scripts (seeded); what they may do is judged by the specifications."""
import random


def op(src, m, d=0):
    return dict(src=src, m=m, d=d)


def chan_op(r, o, c, v):
    n = "c%d" % c
    src = {"write": r.choice(["(channel-write %s %d)", "(%s<- %d)"]) % (n, v) if o == "write" else "",
           "trywrite": "(channel-try-write %s %d)" % (n, v),
           "read": r.choice(["(channel-read %s)", "(<-%s)"]) % n if o == "read" else "",
           "tryread": "(channel-try-read %s)" % n,
           "close": "(close-channel %s)" % n}[o]
    return src, dict(op=o, c=c, v=v if "write" in o else 0)


def delay(r):
    return r.choice([0, 0, 0, -1, -1, 20, 200, 1500])


def chan_scripts(seed, n, procs=4, close=False, maxops=6, slow=False):
    r = random.Random(seed)
    out = []
    for k in range(n):
        nch = r.choice([1, 1, 1, 2])
        caps = [r.choice([0, 0, 0, 1, 1, 2, 3]) for _ in range(nch)]
        v = 0
        ps = []
        np = r.randint(2, procs)
        kind = r.choice(["mixed", "balanced"]) if not close else "mixed"
        if kind == "balanced":
            # writers and readers with equal numbers of blocking operations on each channel: must finish without help
            # (a process is a pure writer or a pure reader, so there is no circular wait)
            nw = r.randint(1, np - 1)
            c = r.randint(1, nch)
            tot = r.randint(1, maxops)
            ws, rs = [[] for _ in range(nw)], [[] for _ in range(np - nw)]
            for _ in range(tot):
                v += 1
                s, m = chan_op(r, "write", c, v)
                r.choice(ws).append(op(s, m, delay(r)))
                s, m = chan_op(r, "read", c, 0)
                r.choice(rs).append(op(s, m, delay(r)))
            ps = ws + rs
            finish, quiet = [], 0
        else:
            for p in range(np):
                ops = []
                for _ in range(r.randint(1, maxops)):
                    c = r.randint(1, nch)
                    o = r.choice(["write", "write", "read", "read", "trywrite", "tryread"] + (["close"] if close and r.random() < .4 else []))
                    v += 1
                    s, m = chan_op(r, o, c, v)
                    ops.append(op(s, m, delay(r)))
                ps.append(ops)
            finish = []
            for c in range(1, nch + 1):
                s, m = chan_op(r, "close", c, 0)
                finish.append(op(s, m, 0))
            quiet = 4000
        final = []
        for c in range(1, nch + 1):
            if finish:
                for _ in range(caps[c - 1] + 1):
                    s, m = chan_op(r, "read", c, 0)
                    final.append(op(s, m))
            else:
                s, m = chan_op(r, "tryread", c, 0)
                final.append(op(s, m))
        out.append(dict(id="ch%d" % k, setup=["(begin (define c%d (make-channel%s)) 1)" % (i + 1, " %d" % c if c or r.random() < .5 else "") for i, c in enumerate(caps)],
                        procs=ps, finish=finish, quiet=quiet, final=final, args=dict(caps=caps)))
    return out


def atom_scripts(seed, n, procs=4, maxops=7, nat=2):
    r = random.Random(seed)
    out = []
    for k in range(n):
        na = r.randint(1, nat)
        small = r.randint(2, 4)

        def one():
            a = r.randint(1, na)
            o = r.choice(["load", "store", "add", "add", "swap", "swap", "cas", "cas", "cas"])
            x, y = r.randint(0, small), r.randint(0, small)
            nm = "a%d" % a
            src = dict(load="(atomic-load %s)" % nm, store="(atomic-store! %s %d)" % (nm, x), add="(atomic-add! %s %d)" % (nm, x),
                       swap="(atomic-swap! %s %d)" % (nm, x), cas="(atomic-compare-and-swap! %s %d %d)" % (nm, x, y))[o]
            return op(src, dict(op=o, a=a, x=x, y=y), r.choice([0, 0, 0, 0, -1, 20]))
        ps = [[one() for _ in range(r.randint(2, maxops))] for _ in range(r.randint(2, procs))]
        out.append(dict(id="at%d" % k, setup=["(begin (define a%d (atomic)) 1)" % (i + 1) for i in range(na)], procs=ps,
                        finish=[], quiet=0, final=[op("(atomic-load a%d)" % (i + 1), dict(op="load", a=i + 1, x=0, y=0)) for i in range(na)], args={}))
    return out


def atom_bulk_scripts(seed, n, procs=4, per=400):
    r = random.Random(seed)
    out = []
    for k in range(n):
        o = ["add", "swap", "cas"][k % 3]
        ps = []
        for p in range(procs):
            if o == "add":
                src = "(map (lambda (i) (atomic-add! a 1)) lst)"
            elif o == "swap":
                src = "(map (lambda (i) (atomic-swap! a (+ i %d))) lst)" % (p * per)
            else:
                src = "(filter (lambda (i) (atomic-compare-and-swap! a i (+ i 1))) lst0)"
            ps.append([op(src, dict(op=o))])
        out.append(dict(id="bulk%d" % k, setup=["(begin (define a (atomic)) (define lst (interval 1 %d)) (define lst0 (interval 0 %d)) 1)" % (per, per - 1)],
                        procs=ps, finish=[], quiet=0, final=[op("(atomic-load a)", dict(op="final"))], args=dict(op=o)))
    return out


def bulk_rows(hist):
    rows = []
    for h in hist:
        res = [[int(x) for x in e["r"].strip("()").split()] for e in h["ev"] if e["k"] == "ret" and e["p"] > 0]
        final = int([e["r"] for e in h["ev"] if e["k"] == "ret" and e["p"] == 0][-1])
        rows.append(dict(op=h["args"]["op"], res=res, final=final, line=h["line"]))
    return rows


FRAME_TOOLS = ("(define base {rda: (lambda () a) rdb: (lambda () b) who: (lambda () (id: self)) inner: (lambda () (id: self)) who2: (lambda () (let ((x (inner))) x))}) "
               "(define (own f) (let ((g (clone f))) (list (if (memq a: (frame-keys g)) (a: g) 'none) (if (memq b: (frame-keys g)) (b: g) 'none))))")


def frame_setup(own, par, extra=""):
    src = FRAME_TOOLS + "".join(" (define f%d {id: %d q*: base%s})" % (i + 1, i + 1, "".join(" %s: %d" % (s, v) for s, v in o.items() if v)) for i, o in enumerate(own))
    for i, ps in enumerate(par):
        for j, p in enumerate(ps):
            src += " (set-slot! f%d p%d*: f%d)" % (i + 1, j, p)
    return ["(begin %s %s 1)" % (src, extra)]


def frame_scripts(seed, n, procs=4, maxops=6):
    r = random.Random(seed)
    out = []
    for k in range(n):
        nf = r.randint(1, 3)
        fs = list(range(1, nf + 1))
        own = [{s: r.choice([0, 0, 90 + f]) for s in "ab"} for f in fs]
        par = [sorted(r.sample(fs, r.randint(0, min(2, nf)))) for f in fs]
        v = [0]

        def one():
            o = r.choice(["get", "get", "getnil", "var", "has", "set", "set", "set", "remove", "clone", "who"])
            f, s = r.choice(fs), r.choice("ab")
            v[0] += 1
            x = v[0] if o == "set" else 0
            src = dict(get=r.choice(["(get-slot f%d %s:)" % (f, s), "(%s: f%d)" % (s, f)]), getnil="(get-slot-or-nil f%d %s:)" % (f, s), var="(rd%s:> f%d)" % (s, f),
                       has=r.choice(["(has-slot? f%d %s:)" % (f, s), "(%s:? f%d)" % (s, f)]), set=r.choice(["(set-slot! f%d %s: %d)" % (f, s, x), "(%s:! f%d %d)" % (s, f, x)]),
                       remove="(remove-slot! f%d %s:)" % (f, s), clone="(own f%d)" % f, who=r.choice(["(who:> f%d)", "(send f%d who2:)"]) % f)[o]
            return op(src, dict(op=o, f=f, s=s, v=x), r.choice([0, 0, 0, 0, -1, 20]))
        ps = [[one() for _ in range(r.randint(2, maxops))] for _ in range(r.randint(2, procs))]
        final = [op("(own f%d)" % f, dict(op="clone", f=f, s="a", v=0)) for f in fs]
        out.append(dict(id="fr%d" % k, setup=frame_setup(own, par), procs=ps, finish=[], quiet=0, final=final, args=dict(own=own, par=par)))
    return out


def frame_bulk_scripts(seed, n, per=300):
    r = random.Random(seed)
    out = []
    for k in range(n):
        o = ["seen", "pairs", "self", "some", "gone"][k % 5]
        # a cyclic graph; f1 is reachable from all
        par = r.choice([[[2], [1], [1, 2]], [[3], [1], [2]], [[1], [1], [1]], [[2, 3], [1, 3], [1, 2]]])
        lst = "(define lst (interval 1 %d))" % per
        loop = "(for-each (lambda (i) %s) lst)"
        own = [dict(), dict(), dict()]
        noise = r.choice(["(begin (set-slot! f1 z: i) (set-slot! f2 z: i) (remove-slot! f3 z:))", "(begin (set-slot! f3 y: i) (remove-slot! f3 y:) (y:? f2) (set-slot! f2 x: i))"])
        ps, who = [], []
        if o == "self":
            for f in (1, 2, 3, r.randint(1, 3)):
                ps.append([op("(map (lambda (i) (%s:> f%d)) lst)" % (r.choice(["who", "who2"]), f), dict(op="rd"))])
                who.append(f)
            final, want = [], []
        elif o == "pairs":
            own[0] = dict(a=0, b=0)
            ps = [[op("(begin (for-each (lambda (i) (begin (set-slot! f1 a: i) (set-slot! f1 b: i))) lst) '())", dict(op="wr"))],
                  [op("(map (lambda (i) (let ((g (clone f1))) (list (a: g) (b: g)))) lst)", dict(op="rd"))],
                  [op("(map (lambda (i) (let ((g (copy f1))) (list (a: g) (b: g)))) lst)", dict(op="rd"))] if r.random() < .0 else
                  [op("(begin %s '())" % (loop % noise), dict(op="wr"))]]
            final, want = [op("(list (a: f1) (b: f1))", dict(op="fin"))], ["(%d %d)" % (per, per)]
        else:
            rd = r.choice(["(get-slot f%d a:)", "(a: f%d)", "(rda:> f%d)"])
            miss = "(let ((v (get-slot-or-nil f%d a:))) (if (nil? v) -1 v))"
            wr = "(begin (for-each (lambda (i) (set-slot! f1 a: i)) lst) '())"
            ps = [[op(wr, dict(op="wr"))]]
            if o == "gone":
                ps.append([op("(begin (for-each (lambda (i) (remove-slot! f1 a:)) lst) '())", dict(op="wr"))])
                rd = miss
            if o == "some":
                # the child's own slot comes and goes, the inherited one is always there
                ps = [[op("(begin (for-each (lambda (i) (begin (set-slot! f2 a: i) (remove-slot! f2 a:))) lst) '())", dict(op="wr"))]]
            for _ in range(2):
                ps.append([op("(map (lambda (i) %s) lst)" % (rd % (2 if o == "some" else r.randint(1, 3))), dict(op="rd"))])
            ps.append([op("(begin %s '())" % (loop % noise), dict(op="wr"))])
            final, want = ([op("(a: f1)", dict(op="fin"))], [str(per)]) if o == "seen" else ([], [])
        setup = frame_setup(own, par, lst + ("" if o in ("self",) else " (set-slot! f1 a: 0) (set-slot! f1 b: 0)"))
        out.append(dict(id="fb%d" % k, setup=setup, procs=ps, finish=[], quiet=0, final=final, args=dict(op=o, n=per, who=who, want=want)))
    return out


def frame_bulk_rows(hist):
    rows = []
    for h in hist:
        rd, fin, cur = [], [], {}
        for e in h["ev"]:
            if e["k"] == "call":
                cur[e["p"]] = e["m"]["op"]
            else:
                if cur[e["p"]] == "rd":
                    rd.append((e["p"], e["r"]))
                elif cur[e["p"]] == "fin":
                    fin.append(e["r"])
                elif e["r"] != "()":
                    rd.append((e["p"], "bad"))     # a writer failed
        a = h["args"]
        res = [numbers(x) for _, x in sorted(rd)]
        o = dict(gone="seen").get(a["op"], a["op"])
        rows.append(dict(op=o, n=a["n"], gone=a["op"] == "gone", res=res, who=[a["who"][p - 1] if a["who"] else 0 for p, _ in sorted(rd)], finals=fin, wantfinals=a["want"], line=h["line"]))
    return rows


def numbers(text):
    """(1 2 (3 4)) as nested lists of integers; anything else becomes -99."""
    toks = text.replace("(", " ( ").replace(")", " ) ").split()
    stack = [[]]
    for t in toks:
        if t == "(":
            stack.append([])
        elif t == ")":
            x = stack.pop()
            stack[-1].append(x if x else [])
        else:
            try:
                stack[-1].append(int(t))
            except ValueError:
                stack[-1].append(-99)
    x = stack[0][0] if stack[0] else []
    return x if isinstance(x, list) else [-99]


def sched_scripts(seed, n, procs=4, maxops=6, ntasks=2, spin=False):
    r = random.Random(seed)
    out = []
    for k in range(n):
        nt = r.randint(1, ntasks)
        np = r.randint(1, procs)
        ps = [[] for _ in range(np)]
        delay = {}
        for s in range(1, nt + 1):
            fork = r.random() < 0.15
            body = r.choice(["args", "args", "args", "nil", "self", "sleep", "err", "panic"])
            d = 0 if spin and r.random() < .6 else r.choice([0, 0, 1, 1, 2, 3, 5, 12, 30])
            delay[s] = d
            begin = "(vevent %d 'begin 0)" % s
            end = dict(args="(vevent %d 'end (list %d a))" % (s, s), nil="(vevent %d 'end '())" % s, err="(error \"stop\")", panic="(vpanic)",
                       sleep="(vevent %d 'end (proc-sleep p %d))" % (s, d),
                       self="(vevent %d 'end (list (on-error (abandon p) (lambda (e) '!E)) (on-error (reset-timeout p) (lambda (e) '!E)) (join p)))" % s)[body]
            f = r.choice(["(lambda (p a) %s %s)", "(lambda (p . r) (let ((a (car r))) %s %s))"]) % (begin, end)
            how = "fork" if fork else "schedule %d" % d
            src = "(begin (set! s%d (%s %s '(a b))) 'made)" % (s, how, f)
            ps[r.randrange(np)].append(op(src, dict(op="fork" if fork else "sched", s=s, d=d * 1000, b=body), 0 if r.random() < .7 else r.randint(1, 500)))

        def one(p):
            s = r.randint(1, nt)
            o = r.choice(["abandon", "abandon", "reset", "reset", "reset", "join", "wake", "wake", "sleep"])
            ms = r.choice([0, 0, 1, 3, 8])
            if o == "sleep" and ms > 3 and r.random() < .7:
                ms = 1
            call = dict(abandon="(abandon s%d)", reset="(reset-timeout s%d)", join="(join s%d)", wake="(wake s%d)", sleep="(proc-sleep s%%d %d)" % ms)[o] % s
            near = max(0, int(r.gauss(delay[s] * 1000, 60 + delay[s] * 40)))
            dl = r.choice([0, 0, 0, -1, r.randint(1, 300), near, near, r.randint(0, delay[s] * 1500 + 1)])
            pre = "(vspin %d) " % r.choice([100, 1500, 2500]) if spin and r.random() < .5 else ""
            return op("(begin %s(if (nil? s%d) 'none %s))" % (pre if o != "sleep" else "", s, call), dict(op=o, s=s, d=ms * 1000, b=""), dl)
        for p in range(np):
            for _ in range(r.randint(1, maxops)):
                ps[p].append(one(p))
                if spin and r.random() < .4:
                    us = r.choice([300, 1200, 2500])
                    ps[p].append(op("(vspin %d)" % us, dict(op="nop", s=0, d=0, b="")))
        wait = max(delay.values()) * 1000 + 3000
        final = [op("(if (nil? s%d) 'none (join s%d))" % (s, s), dict(op="join", s=s, d=0, b="")) for s in delay]
        final += [op("(if (nil? s%d) 'none (join s%d))" % (s, s), dict(op="join", s=s, d=0, b="")) for s in delay if r.random() < .3]
        final += [op("(vsleep %d)" % wait, dict(op="nop", s=0, d=0, b=""))]
        final += [op("(if (nil? s%d) 'none (reset-timeout s%d))" % (s, s), dict(op="reset", s=s, d=0, b="")) for s in delay if r.random() < .3]
        out.append(dict(id="sc%d" % k, setup=["(begin (define s%d '()) 1)" % s for s in delay], procs=ps, finish=[], quiet=0, final=final, args={}))
    return out


def sym_scripts(seed, n, procs=4, names=250):
    """Several processes come by the same new names, or generate symbols, at the same time."""
    r = random.Random(seed)
    out = []
    for k in range(n):
        np = r.randint(2, procs)
        tag = "q%d-%d-" % (seed, k)
        ps, args = [], None
        if k % 3 < 2:
            ord_ = []
            for p in range(np):
                o = list(range(1, names + 1))
                if r.random() < .3:
                    o.reverse()
                ord_.append(o)
                how = r.choice(["read", "read", "intern", "mixed"])
                if how == "read":
                    src = "(map vid '(%s))" % " ".join(tag + str(i) for i in o)
                elif how == "intern":
                    src = "(map (lambda (i) (vid (intern (str \"%s\" (str i))))) '(%s))" % (tag, " ".join(str(i) for i in o))
                else:
                    src = "(list %s)" % " ".join(("(vid '%s%d)" if i % 2 else "(vid (intern \"%s%d\"))") % (tag, i) for i in o)
                ps.append([op(src, {})])
            args = dict(op="intern", ord=ord_, n=names)
        else:
            pre = r.choice(["\"%s\"" % tag, "'%s" % tag, "\"%s\"" % tag, ""])
            f = r.choice(["gensym", "gensym-naked"])
            for p in range(np):
                if r.random() < .3:
                    f = r.choice(["gensym", "gensym-naked"])
                ps.append([op("(map (lambda (i) (str (%s %s))) (interval 1 %d))" % (f, pre, names), {})])
            args = dict(op="gen", ord=[], n=names)
        out.append(dict(id="sy%d" % k, setup=["1"], procs=ps, finish=[], quiet=0, final=[], args=args))
    return out


def sym_rows(hist):
    rows = []
    for h in hist:
        rets = {e["p"]: e["r"].strip("()").split() for e in h["ev"] if e["k"] == "ret"}
        conv = int if h["args"]["op"] == "intern" else str
        try:
            res = [[conv(x) for x in rets[p]] for p in sorted(rets)]
        except ValueError:
            res = [[]]
        rows.append(dict(op=h["args"]["op"], n=h["args"]["n"], ord=h["args"]["ord"], res=res, line=h["line"]))
    return rows


SCOPE_SETUP = ["(define e1 (procedure-environment (let ((unused1 0)) (lambda () 1))))",
               "(define e2 (procedure-environment (eval '(let ((unused2 0)) (lambda () 1)) e1)))",
               "(define mem (lambda (s l) (if (memq s l) 1 0)))",
               "(define bnd (lambda (l s) (let ((p (assq s l))) (if p (if (pair? (cdr p)) (car (cdr p)) 0) 0))))"]


def scope_scripts(seed, n, procs=4, maxops=6):
    """Processes that define, assign and read in two nested scopes, list them, and make and find named environments."""
    r = random.Random(seed)
    out = []
    for k in range(n):
        init = [dict(x=r.choice([0, 101]), y=r.choice([0, 0, 102])), dict(x=r.choice([0, 0, 0, 103]), y=r.choice([0, 0, 104]))]
        tops = {t: "vt-%s-%d-%s" % (seed, k, t) for t in ("s", "t")}
        setup = list(SCOPE_SETUP)
        for t in tops.values():
            setup.append('(make-top-level-environment "%s" \'(id) \'(1))' % t)
        for e in (1, 2):
            setup += ["(eval '(define %s %d) e%d)" % (x, init[e - 1][x], e) for x in "xy" if init[e - 1][x]]
            for x in "xy":
                setup += ["(define rd%s%d (eval '(lambda () %s) e%d))" % (x, e, x, e), "(define wr%s%d (eval '(lambda (v) (set! %s v)) e%d))" % (x, e, x, e)]
        v = [1]

        def one(tabs=k % 4 == 0):
            o = r.choice(["make", "find", "find"] if tabs else ["set", "set", "assign", "var", "var", "var", "lookup", "bound", "def", "def", "names", "binds"])
            e, x = r.choice([1, 2, 2]), r.choice(["x", "x", "y"])
            v[0] += 1
            y = v[0]
            t = r.choice("st")
            src = dict(set=["(eval '(set! %s %d) e%d)" % (x, y, e), "(wr%s%d %d)" % (x, e, y), "(eval '(let ((q %d)) (set! %s q)) e%d)" % (y, x, e)],
                       assign=["(environment-assign! e%d '%s %d)" % (e, x, y)],
                       var=["(eval '%s e%d)" % (x, e), "(rd%s%d)" % (x, e), "(eval '(let ((q %s)) q) e%d)" % (x, e)],
                       lookup=["(environment-lookup e%d '%s)" % (e, x)], bound=["(environment-bound? e%d '%s)" % (e, x), "(environment-assignable? e%d '%s)" % (e, x)],
                       **{"def": ["(eval '(define %s %d) e%d)" % (x, y, e), "(environment-define e%d '%s %d)" % (e, x, y)]},
                       names=["(let ((l (environment-bound-names e%d))) (list (mem 'x l) (mem 'y l)))" % e],
                       binds=["(let ((l (environment-bindings e%d))) (list (bnd l 'x) (bnd l 'y)))" % e],
                       make=["(begin (make-top-level-environment \"%s\" '(id) '(%d)) %d)" % (tops[t], y, y)],
                       find=["(let ((f (find-top-level-environment \"%s\"))) (if f (eval 'id f) 'none))" % tops[t]])[o]
            return op(r.choice(src), dict(op=o, e=e, n=t if o in ("make", "find") else x, v=y), r.choice([0, 0, 0, 0, -1, 20]))
        ps = [[one() for _ in range(r.randint(2, maxops))] for _ in range(r.randint(2, procs))]
        final = [op("(eval '%s e%d)" % (x, e), dict(op="var", e=e, n=x, v=0)) for e in (1, 2) for x in "xy"]
        out.append(dict(id="sc%d" % k, setup=setup, procs=ps, finish=[], quiet=0, final=final, args=dict(init=init)))
    return out


def scope_bulk_scripts(seed, n, per=300):
    r = random.Random(seed)
    out = []
    for k in range(n):
        o = ["seen", "after", "grow", "own"][k % 4]
        lst = "(define lst (interval 1 %d))" % per
        setup = list(SCOPE_SETUP) + [lst, "(eval '(define x 0) e1)", "(define setx (eval '(lambda (v) (set! x v)) e1))", "(define getx (eval '(lambda () x) e2))",
                                     "(define (mk) (let ((c 0)) (lambda () (set! c (+ c 1)) c)))", "(define (mk2 c) (define (inc) (set! c (+ c 1))) (lambda () (inc) c))"]
        wr = r.choice(["(setx i)", "(eval (list 'set! 'x i) e1)", "(environment-assign! e2 'x i)", "(eval (list 'define 'x i) e1)", "(environment-define e1 'x i)"])
        rd = ["(getx)", "(eval 'x e2)", "(environment-lookup e1 'x)", "(let ((q (getx))) q)", "(car (cdr (assq 'x (environment-bindings e1))))", "(eval '((lambda (a) a) x) e2)"]
        noise = "(begin (for-each (lambda (i) %s) lst) '())" % r.choice(["(eval (list 'define 'z i) e1)", "(environment-bound-names e1)", "(environment-bindings e1)", "(eval (list 'define (intern (str \"z\" i)) i) e1)"])
        ps, final, want = [[op(noise, dict(op="wr"))]], [], []
        if o == "seen":
            ps.append([op("(begin (for-each (lambda (i) %s) lst) '())" % wr, dict(op="wr"))])
            ps += [[op("(map (lambda (i) %s) lst)" % r.choice(rd), dict(op="rd"))] for _ in range(3)]
            final, want = [op("(getx)", dict(op="fin"))], [str(per)]
        elif o == "after":
            setup.append("(define ch (make-channel %d))" % r.choice([1, 3, 50]))
            ps.append([op("(begin (for-each (lambda (i) (begin %s (channel-write ch i))) lst) '())" % wr, dict(op="wr"))])
            ps.append([op("(map (lambda (i) (let* ((m (channel-read ch)) (v %s)) (list (car m) v))) lst)" % r.choice(rd), dict(op="rd"))])
        elif o == "grow":
            for p in range(3):
                ps.append([op("(begin (for-each (lambda (i) (eval (list 'define (intern (str \"n%d-\" i)) i) e1)) lst) '())" % p, dict(op="wr"))])
            ps[0] = [op("(map (lambda (i) (length (%s e1))) (interval 1 30))" % r.choice(["environment-bound-names", "environment-bindings"]), dict(op="rd"))]
            ps.append([op("(map (lambda (i) (+ (if (environment-bound? e1 'n0-%d) 1 0) (if (environment-bound? e2 'n1-%d) 1 0) (if (environment-bound? e1 'n2-1) 1 0))) (interval 1 100))" % (r.randint(1, per), r.randint(1, per)), dict(op="rd"))])
            final = [op("(== %d (length (environment-bound-names e1)))" % (3 * per + 2), dict(op="fin"))]
            final += [op("(every (lambda (i) (eq? i (environment-lookup e1 (intern (str \"n%d-\" i))))) lst)" % p, dict(op="fin")) for p in range(3)]
            want = ["#t"] * 4
        else:
            ps += [[op("(let ((c (%s))) (map (lambda (i) (c)) lst))" % f, dict(op="rd"))] for f in r.sample(["mk", "mk", "mk2 0", "mk2 0"], 4)]
        out.append(dict(id="sb%d" % k, setup=setup, procs=ps, finish=[], quiet=0, final=final, args=dict(op=o, n=3 * per + 2 if o == "grow" else per, want=want)))
    return out


def scope_bulk_rows(hist):
    rows = []
    for h in hist:
        rd, fin, cur = [], [], {}
        for e in h["ev"]:
            if e["k"] == "call":
                cur[e["p"]] = e["m"]["op"]
            elif cur[e["p"]] == "rd":
                rd.append(e["r"])
            elif cur[e["p"]] == "fin":
                fin.append(e["r"])
            elif e["r"] != "()":
                rd.append("bad")
        a = h["args"]
        rows.append(dict(op=a["op"], n=a["n"], res=[numbers(x) for x in rd], finals=fin, wantfinals=a["want"], line=h["line"]))
    return rows
