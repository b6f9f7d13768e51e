"""What each property's check runs."""
from vlib import cfg, parallel, Sub, CheckError, REPO
import gens

CHECKS = {}


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco


def bfs_sim(ctx, name, module, bfs, sim, inv=(), props=(), view="View", bound="Bounded", num=100, depth=40, num_thorough=None,
            heap="3g", timeout=600, simprops=False, nsim=1, edges=False):
    """Exhaustive small model (one behaviour per transition) plus simulation of a larger one; both replayed."""
    def b():
        for j, c in enumerate(bfs if isinstance(bfs, list) else [bfs]):
            if c is None: continue
            n = "%s-bfs%d" % (name, j)
            r = ctx.tlc(n, module, cfg(constants=c, view=view, constraint=None if edges else bound, action_constraint=["EmitEdge", "BoundedNext"] if edges else "EmitEdge",
                                        invariants=inv, properties=props),
                        heap=heap, timeout=timeout)
            ctx.replay(n, r["out"])
    def s(k):
        def go():
            c = sim
            if c is None: return
            n = "%s-sim%d" % (name, k)
            nn = num if ctx.quick else (num_thorough or num * 20)
            r = ctx.tlc(n, module, cfg(constants=c, action_constraint="EmitPath", invariants=inv),
                        simulate=nn, depth=depth, seed=ctx.seed * 1000 + k, heap=heap, timeout=timeout)
            ctx.replay(n, r["out"])
        return go
    parallel(b, *[s(k) for k in range(nsim)], n=4)


def chan_mc(ctx, ops):
    ctx.tlc("chan-mc", "ChanMC", cfg(constants=dict(Procs={1, 2, 3}, Chans={1}, CAPS={0, 1, 2}, OPS=ops),
            invariants=["Fifo", "Capacity", "NoSpurious"], properties=["ClosedStays"]), workers=4, heap="6g")


def chan_hist(ctx, name, n, close, seed):
    h = ctx.record(name, gens.chan_scripts(seed, n, close=close))
    ctx.validate(name, "ChanTrace", dict(Procs=set(range(0, 5)), Chans={1, 2}), h, batch=150)


def chan_seq(ctx, name, forks, closemin, bfs_depth, sim_closemin):
    t = ctx.quick
    bfs_sim(ctx, name, "ChanSeq",
            [dict(NCH=1, CAPS={0, 1, 2, 3}, MAXV=6 if t else 9, DEPTH=10 if t else 16, FORKS=False, CLOSEMIN=closemin, PHASE=0),
             dict(NCH=1, CAPS={0, 1, 2}, MAXV=4 if t else 6, DEPTH=7 if t else 10, FORKS=True, CLOSEMIN=closemin, PHASE=0)],
            dict(NCH=3, CAPS={0, 1, 2, 5, 17, 40}, MAXV=1000, DEPTH=240, FORKS=False, CLOSEMIN=sim_closemin, PHASE=80),
            inv=["Fifo", "Capacity"], props=["ClosedForGood"], num=150, depth=260)


@check("C01")
def c01(ctx):
    ctx.build()
    t = ctx.quick
    parallel(
        lambda: chan_mc(ctx, 3 if t else 4),
        lambda: chan_seq(ctx, "chanseq", True, 1000, 10, 100000),
        lambda: chan_hist(ctx, "chan-hist", 400 if t else 6000, False, ctx.seed))


@check("C02")
def c02(ctx):
    ctx.build()
    t = ctx.quick
    parallel(
        lambda: chan_mc(ctx, 3 if t else 4),
        lambda: chan_seq(ctx, "chanclose", True, 0, 10, 200),
        lambda: chan_hist(ctx, "chan-hist-close", 400 if t else 6000, True, ctx.seed + 7))


def rows_job(ctx, name, module, rows, constants=None, what="rows"):
    """Validate one-record-per-line observations with a specification that accepts them one after another."""
    import json, re
    f = ctx.path(name + ".rows")
    with open(f, "w") as o:
        for r in rows:
            o.write(json.dumps(r) + "\n")
    t = ctx.tlc(name, module, cfg(constants=constants, postcondition="Report"), env={"VERIF_TRACE": f})
    m = re.search(r'<<"BULK", (\d+), (\d+)>>', t["text"])
    if not m or int(m.group(2)) != len(rows):
        raise CheckError("%s: no verdict" % name)
    ok = int(m.group(1))
    ctx.traces += len(rows)
    ctx.log("validated %s: %d of %d accepted" % (name, ok, len(rows)))
    if ok < len(rows):
        ctx.violation(name, dict(kind="rows", job=name, rejected=rows[ok]))


@check("C05")
def c05(ctx):
    ctx.build()
    t = ctx.quick

    def hist():
        h = ctx.record("atom-hist", gens.atom_scripts(ctx.seed, 600 if t else 8000), repeat=1)
        ctx.validate("atom-hist", "AtomTrace", dict(Procs=set(range(0, 5)), Ats={1, 2}), h, batch=300)

    def bulk():
        h = ctx.record("atom-bulk", gens.atom_bulk_scripts(ctx.seed, 12 if t else 90), shards=2)
        rows_job(ctx, "atom-bulk", "AtomBulk", gens.bulk_rows(h))
    parallel(
        lambda: ctx.tlc("atom-mc", "AtomMC", cfg(constants=dict(Procs={1, 2, 3}, Ats={1}, ROUNDS=1 if t else 2), invariants=["CounterExact", "AllDone"]), workers=2),
        lambda: bfs_sim(ctx, "atomseq", "AtomSeq", [dict(NAT=1, HI={0}, HINEG=set(), LO={0, 1, 2}, DEPTH=4, MISUSE=True),
                                                    dict(NAT=2, HI={0, 1}, HINEG=set(), LO={0, 3}, DEPTH=2, MISUSE=False)],
                        dict(NAT=3, HI={0, 1, 8388607, 4000000}, HINEG={1, 8388608}, LO={0, 1, 7, 1000}, DEPTH=60, MISUSE=False), num=60, depth=62),
        hist, bulk)


PROC_KINDS = ["val", "nil", "false", "err", "panic", "deep", "self", "helper", "args", "rest", "shared", "rec", "nested", "names", "rest0"]


@check("C03")
def c03(ctx):
    ctx.build()
    t = ctx.quick
    bfs_sim(ctx, "proc", "ProcSeq",
            [dict(NP=1, KINDS=set(PROC_KINDS), DEPTH=5, MISUSE=True),
             dict(NP=2, KINDS={"val", "shared", "cross", "err", "self"}, DEPTH=5 if t else 8, MISUSE=False),
             None if t else dict(NP=3, KINDS={"shared", "cross", "rec"}, DEPTH=7, MISUSE=False)],
            dict(NP=8, KINDS=set(PROC_KINDS) | {"cross"}, DEPTH=26, MISUSE=False),
            inv=["JoinedRan"], props=["JoinedForever"], num=120, depth=28)


def lisp_check(ctx, prop, inv=("BuiltinsKept", "NoDangling", "RestrictedBelow"), nsess=(2400, 60000), extra=None):
    """Programs: all short sessions over an alphabet of forms, and many random longer ones; the specification is the oracle."""
    import json
    import lispgen
    ctx.build()
    t = ctx.quick

    def small(j, forms):
        f = ctx.path("alpha%d.json" % j)
        with open(f, "w") as o:
            for x in forms:
                o.write(json.dumps(x) + "\n")
        r = ctx.tlc("alpha%d" % j, "LispMC", cfg(constants=dict(DEPTH=lispgen.LENGTH[prop][0 if t else 1]), view="View", constraint="Bounded",
                    action_constraint="EmitEdge", invariants=inv, properties=["NeverUnrestricted"]), env={"VERIF_CORPUS": f}, heap="6g", timeout=800)
        ctx.replay("alpha%d" % j, r["out"])

    def sess(k, n):
        f = ctx.path("corpus%d.json" % k)
        with open(f, "w") as o:
            for s in lispgen.sessions(prop, ctx.seed * 100 + k, n):
                o.write(json.dumps(s) + "\n")
        r = ctx.tlc("sess%d" % k, "LispSess", cfg(), env={"VERIF_CORPUS": f}, timeout=800)
        ctx.replay("sess%d" % k, r["out"])
    w = 4 if t else 6
    parallel(*(([extra] if extra else []) + [lambda j=j, f=f: small(j, f) for j, f in enumerate(lispgen.alphabet(prop))] +
               [lambda k=k: sess(k, nsess[0 if t else 1] // w) for k in range(w)]), n=7)


def abort_job(ctx):
    """Errors at every place of every call that changes something."""
    k = lambda d, r: dict(DEPTH=d, RANDOM=r)
    bfs_sim(ctx, "abort", "Abort", [k(1, False)], k(90, True), inv=["Bytes", "Fifo"], num=400, depth=60, nsim=2, edges=True)


for _p in ("C06", "C07", "C08", "C09", "C10", "C11", "C17", "C18"):
    CHECKS[_p] = lambda ctx, p=_p: lisp_check(ctx, p)


@check("C18")
def c18(ctx):
    k = lambda rnd, n: dict(RANDOM=rnd, DEPTH=40, MAXLEN=n)
    lisp_check(ctx, "C18", extra=lambda: bfs_sim(ctx, "sort", "Sorting", k(False, 4 if ctx.quick else 6), k(True, 0), inv=["Kept"], num=150, depth=12, nsim=2, edges=True))


@check("C09")
def c09(ctx):
    lisp_check(ctx, "C09", extra=lambda: abort_job(ctx))


FRAME_ALL = {"get", "set", "selfget", "call", "sup", "sugar", "send", "param", "clos", "setself", "args", "def", "asup", "inner", "fnslot", "letset", "cloneself", "other", "sup1", "sup2", "supn"}


def frames(NF, DATA, METH, PAR, VALS, KINDS, PVALS, DEPTH, MISUSE, ANYINIT, FORMS={1, 2, 3, 4}):
    return dict(NF=NF, DATA=DATA, METH=METH, PAR=PAR, VALS=VALS, KINDS=KINDS, PVALS=PVALS, DEPTH=DEPTH, MISUSE=MISUSE, ANYINIT=ANYINIT, FORMS=FORMS)


@check("C12")
def c12(ctx):
    ctx.build()
    t = ctx.quick
    inv = ["OwnWins", "HasIffReadable"]
    a, p, m = {"a:"}, {"p*:"}, {"m:"}
    parallel(
        # every state of two frames with one data slot and one parent slot each, every operation
        lambda: bfs_sim(ctx, "frame-data", "FrameSeq",
            [frames(2, a, set(), p, {"1", "()"}, set(), {"5"}, 1, True, "all"),
             frames(3, a, set(), p, {"1"}, set(), set(), 1, False, "all", {1}),
             frames(2, a, set(), {"p*:", "q*:"}, {"1", "2"}, set(), set(), 1, False, "all", {1}),
             None if t else frames(3, a, set(), {"p*:", "q*:"}, {"1"}, set(), set(), 1, False, "all", {1})],
            frames(5, {"a:", "b:"}, set(), {"p*:", "q*:"}, {"1", "2", "()"}, set(), {"5"}, 40, False, "random", {1, 2}),
            inv=inv, props=["OneFrame"], num=120, depth=47, edges=True),
        # functions in slots
        lambda: bfs_sim(ctx, "frame-send", "FrameSeq",
            [frames(2, a, m, p, {"1"}, {"get", "set", "sup", "def"}, set(), 1, False, "all", {1}),
             frames(2, a, m, p, {"1"}, {"args", "sup2", "supn"}, set(), 1, False, "all", {1}),
             frames(2, {"a:", "b:"}, {"m:", "n:"}, p, {"1"}, {"call", "sugar"}, set(), 1, False, "all", {1}) if not t else None,
             frames(3, a, m, p, {"1"}, {"get", "set", "sup"}, set(), 1, False, "acyclic", {1} if t else {1, 2, 3, 4})],
            frames(4, {"a:", "b:"}, {"m:", "n:"}, p, {"1", "2"}, FRAME_ALL, set(), 60, False, "random"),
            inv=inv, num=700, depth=66, nsim=3, edges=True),
        # sends in all forms, to every kind of slot, with arguments that fail
        lambda: bfs_sim(ctx, "sends", "Sends",
            dict(RANDOM=False, DEPTH=60, MAXARGS=3 if t else 4),
            dict(RANDOM=True, DEPTH=60, MAXARGS=0),
            inv=["Whole"], num=200, depth=40, nsim=2, edges=True))


def share(ctx, mode, groups, repeat, k=6, ln=40):
    """Sessions that use one frame, one scope or the same functions at once, each its own part of it."""
    r = ctx.tlc("share-" + mode, "Share", cfg(constants=dict(MODE=mode, K=k, LEN=ln, GROUPS=groups)), simulate=1, depth=groups + 2, seed=ctx.seed)
    ctx.par("share-" + mode, r["out"], repeat=repeat)


def repl(ctx, name, module, bfs, sim, inv, num, depth, nsim):
    """Sessions with the golisp command, each a process of its own."""
    def b():
        for j, c in enumerate(bfs):
            n = "%s-bfs%d" % (name, j)
            r = ctx.tlc(n, module, cfg(constants=c, view="View", action_constraint=["EmitEdge", "BoundedNext"], invariants=inv))
            ctx.sessions(n, r["out"])

    def s(k):
        def go():
            n = "%s-sim%d" % (name, k)
            r = ctx.tlc(n, module, cfg(constants=sim, action_constraint="EmitPath", invariants=inv), simulate=num, depth=depth, seed=ctx.seed * 1000 + k)
            ctx.sessions(n, r["out"])
        return go
    parallel(b, *[s(k) for k in range(nsim)], n=2)


@check("C13")
def c13(ctx):
    ctx.build()
    t = ctx.quick

    def lock():
        ctx.tlc("frame-lock", "FrameLock", cfg(constants=dict(Readers={1, 2}, Writers={3, 4}, ALGO="single"), invariants=["Exclusive", "NoDeadlock"]), workers=2)
        r = ctx.tlc("frame-lock-nested", "FrameLock", cfg(constants=dict(Readers={1, 2}, Writers={3, 4}, ALGO="nested"), invariants=["NoDeadlock"]), expect_ok=False)
        if "NoDeadlock is violated" not in r["text"]:
            raise CheckError("the specification does not show the deadlock of nested read locks")

    def hist():
        h = ctx.record("frame-hist", gens.frame_scripts(ctx.seed, 500 if t else 6000))
        ctx.validate("frame-hist", "FrameTrace", dict(Procs=set(range(0, 5)), Frames={1, 2, 3}, SlotNames={"a", "b"}), h, batch=150)

    def bulk():
        h = ctx.record("frame-bulk", gens.frame_bulk_scripts(ctx.seed, 60 if t else 600), shards=2, gomaxprocs=4, limit="30s")
        rows_job(ctx, "frame-bulk", "FrameBulk", gens.frame_bulk_rows(h))

    def race():
        b = ctx.build(race=True)
        h = ctx.record("frame-race", gens.frame_bulk_scripts(ctx.seed + 1, 10 if t else 100, per=60) + gens.frame_scripts(ctx.seed + 1, 30 if t else 600), shards=2, binary=b, limit="60s")
    parallel(
        lambda: ctx.tlc("frame-mc", "FrameMC", cfg(constants=dict(Procs={1, 2}, Frames={1, 2}, SlotNames={"a"}, OPS=2 if t else 3), invariants=["OnlyWritten", "NeverStuck"]), workers=2, heap="5g"),
        lock, hist, bulk, race, lambda: share(ctx, "frame", 60 if t else 600, 30 if t else 100), n=5)


def bytes_c(NP, MAXLEN, BYTES, IDX, DEPTH, MISUSE, ANYINIT, RANDOM=False):
    return dict(NP=NP, MAXLEN=MAXLEN, BYTES=BYTES, IDX=IDX, DEPTH=DEPTH, MISUSE=MISUSE, ANYINIT=ANYINIT, RANDOM=RANDOM)


@check("C14")
def c14(ctx):
    ctx.build()
    t = ctx.quick
    idx = {0, 1, 2, 3}
    parallel(
        lambda: bfs_sim(ctx, "bytes", "ByteSeq",
            [bytes_c(2, 2, {1, 255}, idx, 1, True, True),
             bytes_c(3, 2 if not t else 1, {1}, {0, 1}, 1, False, True),
             None if t else bytes_c(3, 2, {1, 2}, {0, 1, 2}, 1, False, True),
             bytes_c(6, 1, {1}, {0, 1}, 1, False, False)],
            bytes_c(6, 3, {0, 1, 255}, idx | {5, 8, 13}, 40, False, False, True),
            inv=["OnlyBytes"], props=["OneArray"], num=1500, depth=45, nsim=2, edges=True))


def listfns(MAXN, STYLES, NESTED, PARTS, DEPTH, RANDOM):
    return dict(MAXN=MAXN, STYLES=STYLES, NESTED=NESTED, PARTS=PARTS, DEPTH=DEPTH, RANDOM=RANDOM)


@check("C25")
def c25(ctx):
    ctx.build()
    t = ctx.quick
    allp = {"access", "cut", "arrange", "misc"}
    bfs_sim(ctx, "lists", "ListFns",
            [listfns(3, {1}, 4 if t else 7, {"arrange", "cut"}, 1, False),
             listfns(2 if t else 3, {1, 2, 3, 5} if t else set(range(1, 9)), 7, {"access", "arrange"}, 1, False),
             listfns(1, set(range(1, 9)), 8, allp, 1, False)],
            listfns(3, set(range(1, 9)), 8, allp, 60, True),
            inv=["Laws"], num=120, depth=64, nsim=2, edges=True)


def conses(NC, MAXC, PURE, NEWOPS, DEPTH, RANDOM):
    return dict(NC=NC, MAXC=MAXC, PURE=PURE, NEWOPS=NEWOPS, DEPTH=DEPTH, RANDOM=RANDOM)


@check("C15")
def c15(ctx):
    ctx.build()
    t = ctx.quick
    parallel(
        lambda: bfs_sim(ctx, "cons", "ConsHeap",
            [conses(2, 9, True, True, 1, False), None if t else conses(3, 9, True, True, 1, False)],
            conses(6, 18, False, True, 60, True), inv=["Acyclic"], props=["OneField"], num=60, depth=40, nsim=2, edges=True),
        lambda: bfs_sim(ctx, "cons3", "ConsHeap", conses(3, 7, False, False, 1, False), conses(4, 8, True, False, 12, True), inv=["Acyclic"], num=30, depth=8, edges=True))


@check("C16")
def c16(ctx):
    ctx.build()
    t = ctx.quick
    keys = {"a", "b", "2", "2.5", "$s", "#t", "$a", "z:"}
    al = lambda K, V, D, M, A, R=False: dict(KEYS=K, VALS=V, DEPTH=D, MISUSE=M, ANYINIT=A, RANDOM=R)
    parallel(
        lambda: bfs_sim(ctx, "alist", "AlistSeq",
            [al({"a", "2"}, {"1", "(1 2)"}, 1, True, True), al({"a", "b", "$s"}, {"1", "()"}, 1, False, True), al({"a", "$a"}, {"a", "$a", "#f"}, 1, False, True),
             None if t else al({"a", "b", "2", "$a"}, {"1", "2"}, 1, False, True)],
            al(keys, {"1", "2", "()", "(1 2)", "#f", "$a", "x", "a", "$x"}, 60, False, False, True), inv=["TypeOK"], props=["OneKey"], num=500, depth=30, edges=True),
        lambda: bfs_sim(ctx, "sets", "SetFns", [dict(N=4 if t else 5, NL=2, DEPTH=1, RANDOM=False), dict(N=2 if t else 3, NL=3, DEPTH=1, RANDOM=False)],
            dict(N=10, NL=3, DEPTH=40, RANDOM=True), inv=["Laws"], num=1000, depth=30, edges=True))


@check("C20")
def c20(ctx):
    ctx.build()
    t = ctx.quick
    e = lambda pool, r=False: dict(POOL=pool, DEPTH=30 if r else 1, RANDOM=r)
    design = ["Reflexive", "Symmetric", "Congruent"]
    parallel(
        lambda: bfs_sim(ctx, "eq", "EqSeq", [e("small"), e("lists")], e("small", True), inv=design, num=300, depth=34, nsim=2, edges=True),
        lambda: bfs_sim(ctx, "eqp", "EqSeq", [e("atoms"), e("pairs"), None if t else e("mixed")], None, inv=design + ["Transitive"], edges=True),
        lambda: bfs_sim(ctx, "eqf", "FrameEq", [dict(N=3 if t else 4, DEPTH=1)], None, inv=["Equivalence"], edges=True))


@check("C19")
def c19(ctx):
    ctx.build()
    t = ctx.quick
    r = lambda mode, alpha, n: dict(MODE=mode, ALPHA=alpha, MAXLEN=n, DEPTH=60)
    x = lambda alpha, n, rnd=False: dict(ALPHA=alpha, MAXLEN=n, DEPTH=60, RANDOM=rnd)
    parallel(
        lambda: bfs_sim(ctx, "read", "Reader", [r("tokens", "few", 5), r("tokens", "lits", 2 if t else 3)], r("sim", "lits", 0), inv=["Denotes"], num=200, depth=61, nsim=2, edges=True),
        lambda: bfs_sim(ctx, "readp", "Reader", [r("tokens", "parens", 5 if t else 6)], None, edges=True),
        lambda: bfs_sim(ctx, "lex", "Lexer", [x("num", 5 if t else 6), x("str", 5 if t else 6), x("hash", 4 if t else 5), x("mix", 4)], x("all", 0, True), inv=["Spacing", "Lines"], num=300, depth=61, nsim=2, edges=True))


@check("C27")
def c27(ctx):
    ctx.build()
    t = ctx.quick
    a = lambda r, full: dict(DEPTH=61 if r else 1, RANDOM=r, FULL=full)
    bfs_sim(ctx, "arith", "Arith", [a(False, not t)], a(True, False), inv=["Laws"], num=150, depth=62, nsim=2, edges=True)


@check("C26")
def c26(ctx):
    ctx.build()
    t = ctx.quick
    r = lambda mode, alpha, n, d=40: dict(MODE=mode, ALPHA=alpha, MAXLEN=n, DEPTH=d)
    bfs_sim(ctx, "json", "JsonDocs", [r("tokens", "few", 5 if t else 6), r("tokens", "lits", 2 if t else 3)], r("sim", "lits", 0), inv=["Denotes"], num=300, depth=41, nsim=2, edges=True)


@check("C23")
def c23(ctx):
    ctx.build()
    t = ctx.quick
    k = lambda mode, i=0: dict(MODE=mode, SHARD=i, SHARDS=6, DEPTH=60)
    parallel(*[lambda i=i: bfs_sim(ctx, "small%d" % i, "Totality", [k("small", i)], None, inv=["Shape"], edges=True) for i in range(6)],
             lambda: bfs_sim(ctx, "calls", "Totality", [k("arity")], k("sim"), num=150, depth=200, nsim=2, edges=True), n=4)


@check("C28")
def c28(ctx):
    ctx.build()
    t = ctx.quick
    k = lambda al, n, r: dict(ALPHA=al, MAXLEN=n, RANDOM=r, DEPTH=60)
    bfs_sim(ctx, "str", "StrSeq", [k("few", 2 if t else 3, False), k("more", 1 if t else 2, False)], k("all", 8, True), inv=["Laws"], num=400, depth=61, nsim=3, edges=True)


@check("C04")
def c04(ctx):
    ctx.build()
    t = ctx.quick

    def hist(name, n, spin, gmp, seed):
        def go():
            h = ctx.record(name, gens.sched_scripts(seed, n, spin=spin), shards=6, gomaxprocs=gmp)
            ctx.validate(name, "SchedTrace", dict(Procs=set(range(0, 5)), Tasks={1, 2}, SLACK=6000000), h, batch=150)
        return go
    parallel(
        lambda: ctx.tlc("sched-mc", "SchedMC", cfg(constants=dict(Procs={1, 2}, Tasks={1}, D=1, MAXT=3, OPS=2 if t else 3), invariants=["Once", "AbandonedStays", "NotEarly", "OneJoin"],
                        properties=["Runs", "JoinsEnd"]), workers=2),
        lambda: ctx.tlc("sched-impl", "SchedImpl", cfg(constants=dict(LOOP=False, D=2, MAXT=8, RESETS=3), invariants=["Once", "AbandonedStays", "NotEarly"], properties=["RunsInTheEnd"])),
        lambda: bfs_sim(ctx, "schedseq", "SchedSeq", [dict(NP=1, DEPTH=6 if t else 8, MISUSE=True, SLOW=False), dict(NP=2, DEPTH=5 if t else 6, MISUSE=False, SLOW=False)],
                        dict(NP=6, DEPTH=30, MISUSE=False, SLOW=True), props=["GoneStays"], num=150, depth=31),
        hist("sched-hist", 1600 if t else 8000, False, 4, ctx.seed),
        hist("sched-spin", 1200 if t else 5000, True, 1, ctx.seed + 31))


@check("C21")
def c21(ctx):
    ctx.build()
    t = ctx.quick
    NAMES = {"a", "A", "foo", "Foo", "foo-bar", "foo?", "x1", "->y", "*v*", "k:", "other-key:", "zq"}
    k = lambda names, pre, nv, d, r: dict(NAMES=names, PREFIXES=pre, NV=nv, DEPTH=d, RANDOM=r)

    def bulk():
        h = ctx.record("sym-bulk", gens.sym_scripts(ctx.seed, 120 if t else 1500), shards=4, gomaxprocs=8)
        rows_job(ctx, "sym-bulk", "SymBulk", gens.sym_rows(h))
    parallel(
        lambda: ctx.tlc("sym-mc", "SymMC", cfg(constants=dict(Procs={1, 2, 3} if not t else {1, 2}, Names={1, 2}, ROUNDS=2, RECHECK=True, LOCKED=True), invariants=["OneSymbol", "AllNew"], properties=["Ends"]), workers=2),
        lambda: ctx.tlc("sym-mc-norecheck", "SymMC", cfg(constants=dict(Procs={1, 2}, Names={1}, ROUNDS=1, RECHECK=False, LOCKED=True), invariants=["OneSymbol"]), expect_ok=False),
        lambda: ctx.tlc("sym-mc-unlocked", "SymMC", cfg(constants=dict(Procs={1, 2}, Names={1}, ROUNDS=1, RECHECK=True, LOCKED=False), invariants=["AllNew"]), expect_ok=False),
        lambda: bfs_sim(ctx, "symseq", "SymSeq", [k({"foo", "k:"}, {"p"}, 3, 1000, False), k({"Foo", "foo"}, {"p", "p-0"}, 2, 1000, False)],
                        k(NAMES, {"GENSYM", "p", "p-1", "G", "x:"}, 14, 120, True), num=150, depth=60, edges=True, nsim=2),
        bulk)


@check("C22")
def c22(ctx):
    ctx.build()
    t = ctx.quick
    k = lambda nf, np, r: dict(NF=nf, NP=np, RANDOM=r, DEPTH=90, MAXREAD=1000 if r else (4 if t else 6))
    bfs_sim(ctx, "port", "PortSeq", [k(2, 2, False) if t else k(3, 2, False)], k(5, 5, True), inv=["Positions", "Apart"], num=400, depth=120, nsim=4, edges=True)


@check("C24")
def c24(ctx):
    import json
    import lispgen
    ctx.build()
    t = ctx.quick

    def groups(k, n):
        f = ctx.path("groups%d.json" % k)
        with open(f, "w") as o:
            for g in lispgen.groups("%d-%d" % (ctx.seed, k), n):
                o.write(json.dumps(g) + "\n")
        r = ctx.tlc("conc%d" % k, "LispConc", cfg(), env={"VERIF_CORPUS": f}, timeout=800)
        ctx.par("conc%d" % k, r["out"], repeat=10 if t else 60)

    def hist():
        h = ctx.record("scope-hist", gens.scope_scripts(ctx.seed, 400 if t else 5000))
        ctx.validate("scope-hist", "ScopeTrace", dict(Procs=set(range(0, 5)), Scopes={1, 2}, Names={"x", "y"}, Tops={"s", "t"}, MAXENV=7), h, batch=100)
    def bulk():
        h = ctx.record("scope-bulk", gens.scope_bulk_scripts(ctx.seed, 40 if t else 400), shards=2, gomaxprocs=4, limit="30s")
        rows_job(ctx, "scope-bulk", "ScopeBulk", gens.scope_bulk_rows(h))
    def mixed():
        # behaviours of the other specifications, eight at a time: nothing they use is shared
        import random
        allp = {"access", "cut", "arrange", "misc"}
        jobs = [("FrameSeq", frames(4, {"a:", "b:"}, {"m:", "n:"}, {"p*:", "q*:"}, {"1", "2"}, FRAME_ALL, set(), 60, False, "random"), 60, 66),
                ("ByteSeq", bytes_c(6, 3, {0, 1, 255}, {0, 1, 2, 3, 5, 8, 13}, 40, False, False, True), 60, 45),
                ("ListFns", listfns(3, set(range(1, 9)), 8, allp, 60, True), 12, 64),
                ("ConsHeap", conses(6, 18, False, True, 60, True), 12, 40),
                ("AlistSeq", dict(KEYS={"a", "b", "2", "2.5", "$s", "#t", "$a", "z:"}, VALS={"1", "2", "()", "(1 2)", "#f", "$a", "x"}, DEPTH=60, MISUSE=False, ANYINIT=False, RANDOM=True), 15, 30),
                ("Reader", dict(MODE="sim", ALPHA="lits", MAXLEN=0, DEPTH=60), 60, 61),
                ("JsonDocs", dict(MODE="sim", ALPHA="lits", MAXLEN=0, DEPTH=40), 60, 41),
                ("Arith", dict(DEPTH=61, RANDOM=True, FULL=False), 12, 62),
                ("StrSeq", dict(ALPHA="all", MAXLEN=8, RANDOM=True, DEPTH=60), 60, 61),
                ("PortSeq", dict(NF=5, NP=5, RANDOM=True, DEPTH=90, MAXREAD=1000), 60, 120),
                ("ChanSeq", dict(NCH=3, CAPS={0, 1, 2, 5, 17, 40}, MAXV=1000, DEPTH=240, FORKS=False, CLOSEMIN=0, PHASE=80), 20, 260)]

        def one(j):
            m, c, num, depth = jobs[j]
            return ctx.tlc("mix-" + m, m, cfg(constants=c, action_constraint="EmitPath"), simulate=num if t else 10 * num, depth=depth, seed=ctx.seed * 1000 + j)["out"]
        lines = [l for f in parallel(*[lambda j=j: one(j) for j in range(len(jobs))], n=3) for l in open(f) if '"g"' not in l]
        random.Random(ctx.seed).shuffle(lines)
        f = ctx.path("mixed.ndjson")
        open(f, "w").writelines(lines)
        ctx.par("mixed", f, repeat=2 if t else 6, shards=2)

    def slots():
        r = ctx.tlc("slot-conc", "SlotConc", cfg(constants=dict(K=6, REP=3)))
        ctx.par("slot-conc", r["out"], repeat=30 if t else 300)
    parallel(mixed, hist, bulk, slots,
             *[lambda m=m: share(ctx, m, 60 if t else 600, 30 if t else 100) for m in ("call", "env", "frame")],
             lambda: ctx.tlc("scope-mc", "ScopeMC", cfg(constants=dict(Procs={1, 2} if t else {1, 2, 3}, Scopes={1, 2}, Names={"x", "y"}, Tops={"s"}, MAXENV=1, OPS=2),
                             invariants=["Given", "NeverUnbound", "NeverStuck"]), workers=2, heap="5g", timeout=800),
             *[lambda k=k: groups(k, 60 if t else 600) for k in range(3)], n=5)


@check("C29")
def c29(ctx):
    ctx.build()
    t = ctx.quick
    k = lambda n, r, items: dict(MAXLEN=n, RANDOM=r, DEPTH=60, ITEMS=items)
    bfs_sim(ctx, "text", "TextEval", [k(2 if t else 3, False, "all"), k(3 if t else 4, False, "few")], k(7, True, "all"), inv=["Splits"], num=400, depth=40, nsim=2, edges=True)


@check("C30")
def c30(ctx):
    ctx.build()
    bfs_sim(ctx, "hostprim", "HostPrim", dict(RANDOM=False, DEPTH=1), dict(RANDOM=True, DEPTH=60), inv=["Joined"], num=400, depth=60, nsim=2, edges=True)


@check("C31")
def c31(ctx):
    ctx.build()
    t = ctx.quick
    k = lambda n, r, src: dict(RANDOM=r, DEPTH=60, LIB=REPO + "/lisp/streams.lsp", MAXS=n, SRC=src)
    bfs_sim(ctx, "streams", "Streams", [k(6, False, "few" if t else "all")], k(0, True, "all"), inv=["Transparent"], props=["Kept"], num=400, depth=60, nsim=2, edges=True)


@check("C32")
def c32(ctx):
    ctx.build()
    k = lambda n, r: dict(RANDOM=r, DEPTH=60, LIB=REPO + "/lisp/testing.lsp", MAXITEMS=n)
    bfs_sim(ctx, "testing", "Testing", k(2 if ctx.quick else 3, False), k(0, True), inv=["Reported", "Apart"], num=200, depth=30, nsim=2, edges=True)


@check("C33")
def c33(ctx):
    ctx.build()
    k = lambda l, r: dict(RANDOM=r, DEPTH=60, LIB=REPO + "/lisp/profiling.lsp", LEVEL=l, AST=4)
    bfs_sim(ctx, "profile", "Profile", [k(1, False), k(2 if ctx.quick else 3, False)], k(1, True), inv=["Whole"], num=200, depth=40, nsim=2, edges=True)
    r = lambda rnd, n: dict(RANDOM=rnd, DEPTH=60, LIB=REPO + "/lisp/profiling.lsp", MAXNODES=n)
    bfs_sim(ctx, "report", "Report", r(False, 3 if ctx.quick else 4), r(True, 0), inv=["Whole", "Timed"], num=100, depth=400, nsim=2, edges=True)


@check("C34")
def c34(ctx):
    ctx.build()
    bfs_sim(ctx, "types", "Types", dict(RANDOM=False, DEPTH=1), dict(RANDOM=True, DEPTH=60), inv=["Consistent"], num=400, depth=60, nsim=2, edges=True)


@check("C35")
def c35(ctx):
    ctx.build()
    bfs_sim(ctx, "keep", "Keep", dict(RANDOM=False, DEPTH=1), dict(RANDOM=True, DEPTH=90), inv=["TypeOK", "Apart"], num=400, depth=91, nsim=3, edges=True)


@check("C36")
def c36(ctx):
    ctx.build()
    bfs_sim(ctx, "floats", "Floats", dict(RANDOM=False, DEPTH=1), dict(RANDOM=True, DEPTH=100), inv=["OneValue"], num=150, depth=100, nsim=2, edges=True)


@check("C37")
def c37(ctx):
    ctx.build()
    k = lambda p, r, d=60: dict(PART=p, RANDOM=r, DEPTH=d if r else 20)
    parallel(*[lambda p=p: bfs_sim(ctx, "console-" + p, "Console", k(p, False), k(p, True), inv=["Balanced"], num=120, depth=61, nsim=1, edges=True) for p in ("trace", "write", "set")], n=3)


@check("C38")
def c38(ctx):
    t = ctx.quick
    ctx.build_command()
    k = lambda stops, rnd: dict(DEPTH=60, RANDOM=rnd, MAXSTOP=stops)
    repl(ctx, "repl", "Repl", [k(1 if t else 2, False)], k(4, True), ["TypeOK", "Ending", "Harmless"], num=150 if t else 3000, depth=80, nsim=2)


@check("C39")
def c39(ctx):
    t = ctx.quick
    ctx.build()
    k = lambda rnd: dict(DEPTH=60, RANDOM=rnd)
    bfs_sim(ctx, "fun", "Fun", [k(False)], k(True), inv=["Bound", "Told"], num=1200, depth=70, nsim=2, edges=True)
