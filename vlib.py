"""Shared machinery of the checks: build the harness, run TLC, replay behaviours, report."""
import json, os, re, shutil, subprocess, threading, sys, tempfile, time, shlex
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(VERIF, "specs")
REPO = "/repo"
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
GOENV = dict(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="1", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", LANG="C.UTF-8", LC_ALL="C.UTF-8")
GOENV["GOCACHE"] = os.environ.get("GOCACHE", "/root/.cache/go-build")


class CheckError(Exception):
    """The check itself failed: neither 'held' nor 'violated'."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples, self.notes, self.jobs = [], [], []
        self.violations, self.known = [], []
        self.nviol, self.lock = 0, threading.Lock()
        self.findings = load_findings(prop)
        self.bin = None
        self.exhaustive_parts = []
        self.timed = prop == "C04"     # where what is observed depends on delays

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    # ------------------------------------------------------------------ build
    def build(self, race=False):
        src = self.path("harness")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
        out = self.path("h-race" if race else "h")
        if os.path.exists(out):
            return out
        env = dict(os.environ, **GOENV)
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
        r = subprocess.run(cmd, cwd=src, env=env, capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise CheckError("harness does not build:\n" + r.stderr[-4000:])
        if not race:
            self.bin = out
        self.log("built harness%s from %s" % (" (race)" if race else "", REPO))
        return out

    def build_command(self):
        """The golisp command itself."""
        self.golisp = self.path("golisp")
        r = subprocess.run(["go", "build", "-o", self.golisp, "./main"], cwd=REPO, env=dict(os.environ, **GOENV), capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise CheckError("the golisp command does not build:\n" + r.stderr[-4000:])
        self.log("built the golisp command from", REPO)

    def session(self, steps, limit=30):
        """One session with the golisp command; what first differs from what the specification says, or None."""
        d = tempfile.mkdtemp(dir=self.dir)
        files = [s for s in steps if s[2] == "file"]
        lines = [s for s in steps if s[2] != "file"]
        names = []
        for i, f in enumerate(files):
            names.append("f%d.lsp" % i)
            if f[1] != "none":
                with open(os.path.join(d, names[-1]), "w") as fh:
                    fh.write(f[0])
        env = dict(os.environ, HOME=d, TERM="dumb", COLUMNS="2000", LINES="50", INPUTRC="/dev/null", LANG="C.UTF-8", LC_ALL="C.UTF-8")
        bad = lambda i, s, got: dict(step=i, src=s[0], exp=s[1], got=got)
        try:
            r = subprocess.run([self.golisp] + names, cwd=d, env=env, input="".join(s[0] + "\n" for s in lines).encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=limit)
            out, rc = r.stdout.decode(errors="replace").split("\n"), r.returncode
        except subprocess.TimeoutExpired as e:
            out, rc = (e.stdout or b"").decode(errors="replace").split("\n"), "still running after %ss" % limit
        finally:
            shutil.rmtree(d, ignore_errors=True)
        loads, p = [], 0
        while p < len(out) and not out[p].startswith("Welcome"):
            if out[p].startswith("Loading "):
                loads.append([out[p][8:], "ok"])
            elif out[p].startswith("Error: ") and loads:
                loads[-1][1] = "err"
            p += 1
        exp = [[n, "ok" if f[1] == "ok" else "err"] for n, f in zip(names, files)]
        if loads != exp:
            return dict(step=0, src="files " + json.dumps([f[0] for f in files]), exp=json.dumps(exp), got=json.dumps(loads))
        prompt, prev = "> ", None
        for i, s in enumerate(lines + [["", "*", ""]]):
            last = i == len(lines)
            q = p
            while q < len(out) and not (out[q] == prompt + s[0] if not last else out[q].startswith(prompt)):
                q += 1
            if q == len(out):
                return bad(i, prev or s, "no prompt %r after it; the output goes on with %r (exit: %s)" % (prompt, out[p:p + 4], rc))
            if prev is not None and prev[1] != "*":
                ans = [l[4:] for l in out[p:q] if l.startswith("==> ")]
                err = [l for l in out[p:q] if l.startswith("Error: ") or l.startswith("Error in evaluation: ")]
                if prev[1] == "!E":
                    ok = len(err) == 1 and not ans
                else:
                    ok = not err and ans == ([prev[1]] if prev[1] else [])
                if not ok:
                    return bad(i - 1, prev, "; ".join("==> " + a for a in ans) + "; ".join(err) or "nothing")
            p, prev, prompt = q + 1, s, s[2]
        if rc != 0:
            return bad(len(lines), ["the end of the input", "0", ""], "exit: %s" % rc)
        return None

    def sessions(self, name, behfile, workers=8):
        if not os.path.exists(behfile) or os.path.getsize(behfile) == 0:
            raise CheckError("no behaviours were generated for " + name)
        beh = [json.loads(l) for l in open(behfile)]
        nbad = []

        def one(b):
            if len(nbad) > 15:   # enough
                return None
            m = self.session(b["s"], limit=20)
            if m:
                nbad.append(m)
            return m
        with ThreadPoolExecutor(workers) as ex:
            res = list(ex.map(one, beh))
        self.traces += len(beh)
        self.steps += sum(len(b["s"]) for b in beh)
        mism = [(b, m) for b, m in zip(beh, res) if m]
        self.log("sessions %s: %d sessions, %d lines, %d mismatches" % (name, len(beh), sum(len(b["s"]) for b in beh), len(mism)))
        confirmed = 0
        for b, m in mism:
            k = self.known_match(m["src"], m["got"])
            if k:
                if k not in self.known:
                    self.known.append(k)
                continue
            if confirmed >= 3:
                continue
            m2 = self.session(b["s"], limit=60)
            if m2 is None:
                self.log("not reproduced:", json.dumps(m))   # a machine too busy to answer in time
                if "still running" in m["got"]:
                    continue
            confirmed += 1
            self.violation(name, dict(kind="session", job=name, mismatch=m2 or m, behaviour=b))
        return mism

    # -------------------------------------------------------------------- tlc
    def tlc(self, name, module, cfg, simulate=None, depth=None, env=None, workers=1, timeout=600, heap="3g",
            seed=None, xss="64m", expect_ok=True):
        """Run TLC on specs/<module>.tla with the cfg text; returns its output. A TLC error is a CheckError."""
        d = self.path("tlc-" + name)
        os.makedirs(d, exist_ok=True)
        cfgf = os.path.join(d, name + ".cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
        out = os.path.join(d, "out.ndjson")
        if os.path.exists(out):
            os.remove(out)
        e = dict(os.environ)
        e.update({"VERIF_OUT": out})
        e.update(env or {})
        classpath = TLAJAR + ":" + ":".join(
            os.path.join(os.path.dirname(TLAJAR), x) for x in sorted(os.listdir(os.path.dirname(TLAJAR))) if x.endswith(".jar"))
        cmd = ["java", "-Xmx" + heap, "-Xss" + xss, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
               "-cp", classpath, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "md"),
               "-noGenerateSpecTE", "-config", cfgf]
        if simulate is not None:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed if seed is not None else self.seed)]
        cmd += [os.path.join(SPECS, module + ".tla")]
        t = time.time()
        logf = os.path.join(d, "log")
        with open(logf, "w") as lf:
            try:
                r = subprocess.run(cmd, cwd=SPECS, env=e, stdout=lf, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC job %s took longer than %ds" % (name, timeout))
        text = open(logf, errors="replace").read()
        ok = r.returncode == 0
        if expect_ok and not ok:
            raise CheckError("TLC job %s failed (exit %d):\n%s" % (name, r.returncode, text[-6000:]))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", text)
        if m:
            gen, dist = [int(x.replace(",", "")) for x in m[-1]]
        else:
            m = re.findall(r"number of states generated: ([\d,]+)", text)
            gen = int(m[-1].replace(",", "")) if m else 0
            dist = 0
        self.states += dist
        self.transitions += gen
        job = dict(job=name, module=module, mode="simulate num=%s depth=%s" % (simulate, depth) if simulate else "exhaustive",
                   generated=gen, distinct=dist, wall_s=round(time.time() - t, 1))
        self.jobs.append(job)
        self.log("TLC %s: %d states generated, %d distinct, %.1fs" % (name, gen, dist, time.time() - t))
        return dict(text=text, out=out, ok=ok, generated=gen, distinct=dist)

    # ----------------------------------------------------------------- replay
    def replay(self, name, behfile, shards=8, timeout=600, limit="20s"):
        """Replay a file of behaviours on the real interpreter; collects mismatches."""
        if not os.path.exists(behfile) or os.path.getsize(behfile) == 0:
            raise CheckError("no behaviours were generated for " + name)
        nlines = sum(1 for _ in open(behfile, "rb"))
        if nlines < 50:
            shards = min(shards, 2)
        self.bin or self.build()

        def one(i):
            return self._replay_shard(name, behfile, i, shards, timeout, limit)
        with ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        beh = sum(r["behaviours"] for r in res)
        steps = sum(r["steps"] for r in res)
        mism = [m for r in res for m in r["mismatches"]]
        self.traces += beh
        self.steps += steps
        self.log("replay %s: %d behaviours, %d steps, %d mismatches" % (name, beh, steps, len(mism)))
        if len(self.samples) < 6:
            with open(behfile) as f:
                lines = f.readlines()
            for k in (len(lines) // 3, len(lines) - 1):
                self.samples.append(dict(job=name, behaviour=json.loads(lines[k])["s"][:40]))
        self._judge(name, behfile, mism, limit, shards)
        return mism

    def _replay_shard(self, name, behfile, i, shards, timeout, limit, only=None, binary=None, upto=None):
        tag = "%s-%d" % (name, i) if only is None else "%s-only%d" % (name, only)
        if upto is not None:
            tag += "-upto%d" % upto
        out, prog = self.path(tag + ".res"), self.path(tag + ".prog")
        cmd = [binary or self.bin, "replay", "-in", behfile, "-out", out, "-progress", prog, "-limit", limit]
        cmd += ["-only", str(only)] if only is not None else ["-shard", str(i), "-shards", str(shards)]
        cmd += ["-upto", str(upto)] if upto is not None else []
        with open(self.path(tag + ".log"), "wb") as lf:
            try:
                r = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, timeout=timeout, cwd=self.dir)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                raise CheckError("replay %s shard %d did not finish in %ds" % (name, i, timeout))
        rows = []
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                try:
                    rows.append(json.loads(l))
                except ValueError:
                    pass
        done = [r for r in rows if r.get("done")]
        mism = [r for r in rows if not r.get("done")]
        if not done:
            tail = open(self.path(tag + ".log"), errors="replace").read()
            fatal = re.search(r"^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*)$", tail, re.M)
            if rc == 3 or (rc > 0 and not fatal) or rc == -9:
                raise CheckError("replay %s ended with code %s:\n%s" % (name, rc, tail[-2000:]))
            line = int(open(prog).read().strip() or -1)
            b = nth_line(behfile, line)
            mism.append(dict(line=line, id=b.get("id"), step=len(b["s"]) - 1, src=b["s"][-1][0], exp=b["s"][-1][1],
                             got="!CRASH " + (fatal.group(1) if fatal else "exit %s" % rc), kind="crash"))
            return dict(behaviours=line // max(1, shards), steps=0, mismatches=mism)
        return dict(behaviours=done[-1]["behaviours"], steps=done[-1]["steps"], mismatches=mism)

    def _judge(self, name, behfile, mism, limit, shards):
        """Every mismatch is replayed again, alone and after the behaviours that came before it."""
        confirmed = 0
        for m in mism:
            k = self.known_match(m["src"], m["got"])
            if k:
                if k not in self.known:
                    self.known.append(k)
                continue
            if confirmed >= 3:
                continue
            b = nth_line(behfile, m["line"])
            slow = "60s" if m["kind"] == "hang" else limit
            how = ""
            for k in range(5 if self.timed else 2):
                if self._replay_shard(name, behfile, 0, 1, 300, slow, only=m["line"])["mismatches"]:
                    how = "alone"
                    break
            if not how:
                # it may need what the behaviours before it left behind, or a particular schedule
                for k in range(3):
                    r = [x for x in self._replay_shard(name, behfile, m["line"] % shards, shards, 600, slow, upto=m["line"])["mismatches"] if not self.known_match(x["src"], x["got"])]
                    if r:
                        how = "after the behaviours before it"
                        break
            if not how:
                if "out of memory" in m["got"]:
                    raise CheckError("%s on line %d of %s was not reproduced: %s" % (m["got"], m["line"], name, json.dumps(m)))
                if self.timed:
                    # a delay that the machine, not the interpreter, made too long
                    self.log("not reproduced, taken for a delay of the machine:", json.dumps(m))
                    continue
                how = "no: it depends on the schedule"   # what was seen is a deviation nevertheless
            m["reproduced"] = how
            confirmed += 1
            self.violation(name, dict(kind="replay", job=name, mismatch=m, behaviour=b))

    def par(self, name, behfile, repeat=20, k=8, shards=2, timeout=600, limit="30s"):
        """Run groups of behaviours that do not interfere at the same time; each must give what it gives alone."""
        if not os.path.exists(behfile) or os.path.getsize(behfile) == 0:
            raise CheckError("no behaviours were generated for " + name)
        self.bin or self.build()

        def one(i, only=None, rep=repeat, tag=""):
            out, prog, log = (self.path("par-%s%s-%d.%s" % (name, tag, i, x)) for x in ("res", "prog", "log"))
            cmd = [self.bin, "par", "-in", behfile, "-out", out, "-progress", prog, "-limit", limit, "-repeat", str(rep), "-k", str(k)]
            cmd += ["-only", str(only)] if only is not None else ["-shard", str(i), "-shards", str(shards)]
            with open(log, "wb") as lf:
                try:
                    rc = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, timeout=timeout, cwd=self.dir).returncode
                except subprocess.TimeoutExpired:
                    raise CheckError("par %s shard %d did not finish in %ds" % (name, i, timeout))
            rows = []
            for l in open(out, errors="replace") if os.path.exists(out) else []:
                try:
                    rows.append(json.loads(l))
                except ValueError:
                    pass
            done = [r for r in rows if r.get("done")]
            mism = [r for r in rows if not r.get("done")]
            if not done:
                tail = open(log, errors="replace").read()
                fatal = re.search(r"^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*)$", tail, re.M)
                if rc == 3 or (rc > 0 and not fatal) or rc == -9:
                    raise CheckError("par %s ended with code %s:\n%s" % (name, rc, tail[-2000:]))
                line = int(open(prog).read().strip() or -1)
                mism.append(dict(line=line, id=nth_line(behfile, line).get("id"), step=0, src="", exp="", got="!CRASH " + (fatal.group(1) if fatal else "exit %s" % rc), kind="crash"))
                return dict(behaviours=0, steps=0, mismatches=mism)
            return dict(behaviours=done[-1]["behaviours"], steps=done[-1]["steps"], mismatches=mism)
        with ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        beh = sum(r["behaviours"] for r in res)
        self.traces += beh
        self.steps += sum(r["steps"] for r in res)
        mism = [m for r in res for m in r["mismatches"]]
        self.log("par %s: %d groups, %d steps, %d mismatches" % (name, beh, sum(r["steps"] for r in res), len(mism)))
        confirmed = 0
        for m in mism:
            kf = self.known_match(m["src"], m["got"])
            if kf:
                if kf not in self.known:
                    self.known.append(kf)
                continue
            if confirmed >= 2:
                continue
            # what was seen is a deviation already, unless it is a crash or a time limit; a second run shows how often it happens
            again = []
            for j in range(4):
                again = one(j, only=m["line"], rep=repeat * 5, tag="-again")["mismatches"]
                if again:
                    break
            if not again and "out of memory" in m["got"]:
                raise CheckError("%s on line %d of %s was not reproduced: %s" % (m["got"], m["line"], name, json.dumps(m)))
            confirmed += 1
            self.violation(name, dict(kind="concurrent", job=name, mismatch=m, again=len(again) > 0, group=nth_line(behfile, m["line"])))
        return mism

    def known_match(self, src, got):
        for k in self.findings:
            if k["src"] == src and got.startswith(k["got"]):
                return k
        return None

    def violation(self, name, detail):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        with self.lock:
            self.nviol += 1
            p = os.path.join(d, "%s-%d.json" % (self.prop, self.nviol))
        with open(p, "w") as f:
            json.dump(detail, f, indent=1)
        self.violations.append((p, detail))
        self.log("violation:", json.dumps(detail)[:1500])

    # ------------------------------------------------- concurrent histories
    def record(self, name, scripts, shards=4, repeat=1, limit="20s", timeout=600, binary=None, gomaxprocs=4, env=None, crash_is_violation=True):
        """Run concurrent scripts on the real interpreter; returns the recorded histories."""
        f = self.path(name + ".scripts")
        with open(f, "w") as o:
            for s in scripts:
                o.write(json.dumps(s) + "\n")
        self.bin or self.build()

        def one(i):
            return self._record(name, f, i, shards, repeat, limit, timeout, binary or self.bin, gomaxprocs, env=env)
        with ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        hist = []
        crashes = [r["crash"] for r in res if r["crash"]]
        for r in res:
            hist += r["hist"]
        self.log("recorded %s: %d histories, %d events, %d hangs, %d crashes" % (name, len(hist), sum(len(h["ev"]) for h in hist),
                 sum(1 for h in hist if h["hang"]), len(crashes)))
        for c in crashes[:1]:
            # a crash of the host process: reproduce it
            again = None
            for k in range(3):
                again = self._record(name, f, c["shard"], shards, max(repeat, 3), limit, timeout, binary or self.bin, gomaxprocs, tag="again%d" % k, env=env)["crash"]
                if again:
                    break
            if not again and "out of memory" in c["what"]:
                raise CheckError("a crash while recording %s was not reproduced: %s" % (name, c["what"]))
            if not crash_is_violation:
                raise CheckError("crash while recording %s: %s" % (name, c["what"]))
            self.violation(name, dict(kind="crash", job=name, what=c["what"], again=again and again["what"], script=nth_line(f, c["line"]) if c["line"] >= 0 else None))
        hangs = [h for h in hist if h["hang"]]
        for h in hangs[:1]:
            again = False
            for k in range(4):
                a = self._record(name, f, 0, 1, 25, "30s", 900, binary or self.bin, gomaxprocs, only=h["line"], tag="hang%d" % k, env=env)
                if any(x["hang"] for x in a["hist"]):
                    again = True
                    break
            if not again and len(hangs) < 2 and self.timed:
                raise CheckError("a hang while recording %s was not reproduced (script %d)" % (name, h["line"]))
            self.violation(name, dict(kind="hang", job=name, script=nth_line(f, h["line"]), history=h))
        bad = [h for h in hist if h.get("bad")]
        for b in bad[:1]:
            self.violation(name, dict(kind="setup", job=name, what=b["bad"], script=nth_line(f, b["line"])))
        good = [h for h in hist if not h["hang"] and not h.get("bad")]
        if good and len(self.samples) < 8:
            h = good[len(good) // 2]
            self.samples.append(dict(job=name, history=[[e["k"], e["p"], e.get("m"), e.get("r")] for e in h["ev"][:30]]))
        return good

    def _record(self, name, f, i, shards, repeat, limit, timeout, binary, gomaxprocs, only=None, tag="", env=None):
        t = "%s-%d%s" % (name, i, tag)
        out, prog, logf = self.path(t + ".hist"), self.path(t + ".prog"), self.path(t + ".log")
        for x in (out, prog):
            if os.path.exists(x): os.remove(x)
        cmd = [binary, "script", "-in", f, "-out", out, "-progress", prog, "-limit", limit, "-repeat", str(repeat), "-procs", str(gomaxprocs)]
        cmd += ["-only", str(only)] if only is not None else ["-shard", str(i), "-shards", str(shards)]
        with open(logf, "wb") as lf:
            try:
                r = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, timeout=timeout, cwd=self.dir, env=dict(os.environ, **(env or {})))
            except subprocess.TimeoutExpired:
                raise CheckError("recording %s took longer than %ds" % (name, timeout))
        rows = []
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                try:
                    rows.append(json.loads(l))
                except ValueError:
                    pass
        done = any(r.get("done") for r in rows)
        hist = [r for r in rows if not r.get("done")]
        crash = None
        if not done or r.returncode != 0:
            text = open(logf, errors="replace").read()
            m = re.search(r"^(fatal error: .*|panic: .*|WARNING: DATA RACE|SIG.*)$", text, re.M)
            if r.returncode in (3, -9) or not m:
                raise CheckError("recording %s ended with code %s:\n%s" % (name, r.returncode, text[-2000:]))
            line = -1
            try:
                line = int(open(prog).read().strip())
            except Exception:
                pass
            crash = dict(shard=i, what=m.group(1), line=line, log=text[m.start():m.start() + 3000])
        return dict(hist=hist, crash=crash)

    def validate(self, name, module, constants, hist, batch=400, timeout=600, heap="3g", view="View", extra_inv=(), max_ev=None):
        """Trace validation: every recorded history must be a behaviour of the specification."""
        bad = []
        batches = [hist[i:i + batch] for i in range(0, len(hist), batch)]

        def one(k):
            hs = batches[k]
            f = self.path("%s-%d.trace" % (name, k))
            with open(f, "w") as o:
                for h in hs:
                    o.write(json.dumps(h) + "\n")
            r = self.tlc("%s-%d" % (name, k), module,
                         cfg(constants=constants, view=view, constraint="Reached", invariants=extra_inv, postcondition="Report"),
                         env={"VERIF_TRACE": f}, workers=1, timeout=timeout, heap=heap)
            reach = {int(a): (int(b), int(c)) for a, b, c in re.findall(r'<<"REACH", (\d+), (\d+), (\d+)>>', r["text"])}
            if len(reach) != len(hs):
                raise CheckError("trace validation %s reported %d of %d histories" % (name, len(reach), len(hs)))
            return [(hs[i - 1], a) for i, (a, b) in sorted(reach.items()) if a != b]
        for k, b in enumerate(parallel(*[(lambda k=k: one(k)) for k in range(len(batches))], n=4)):
            bad += b
        self.traces += len(hist)
        self.steps += sum(len(h["ev"]) for h in hist)
        self.log("validated %s: %d histories, %d rejected" % (name, len(hist), len(bad)))
        for h, at in bad[:2]:
            self.violation(name, dict(kind="history", job=name, rejected_at=at, event=h["ev"][at - 1] if at - 1 < len(h["ev"]) else None, history=h))
        return bad

    # --------------------------------------------------------------- evidence
    def evidence(self, level):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, steps_compared=self.steps,
                                jobs=self.jobs, samples=self.samples[:8]),
                  assumptions=self.notes, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def nth_line(path, n):
    with open(path) as f:
        for i, l in enumerate(f):
            if i == n:
                return json.loads(l)
    raise CheckError("no line %d in %s" % (n, path))


def load_findings(prop):
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (\{.*\})\s*$", l)
            if m and m.group(1) == prop:
                res.append(json.loads(m.group(2)))
    return res


def cfg(spec="Spec", constants=None, invariants=(), properties=(), constraint=None, action_constraint=None,
        view=None, postcondition=None, init=None, next=None):
    s = []
    if init:
        s += ["INIT " + init, "NEXT " + next]
    else:
        s += ["SPECIFICATION " + spec]
    if constants:
        s += ["CONSTANTS"] + ["  %s %s %s" % (k, "<-" if isinstance(v, Sub) else "=", tla(v)) for k, v in constants.items()]
    if view: s += ["VIEW " + view]
    for c in ([constraint] if isinstance(constraint, str) else constraint or []): s += ["CONSTRAINT " + c]
    for c in ([action_constraint] if isinstance(action_constraint, str) else action_constraint or []): s += ["ACTION_CONSTRAINT " + c]
    for i in invariants: s += ["INVARIANT " + i]
    for i in properties: s += ["PROPERTY " + i]
    if postcondition: s += ["POSTCONDITION " + postcondition]
    s += ["CHECK_DEADLOCK FALSE"]
    return "\n".join(s) + "\n"


class Sub(str):
    """A constant replaced by a definition (<-)."""


def tla(v):
    if isinstance(v, Sub): return str(v)
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return json.dumps(v)
    if isinstance(v, (set, frozenset)): return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)): return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise ValueError(v)


def parallel(*thunks, n=4):
    with ThreadPoolExecutor(n) as ex:
        return [f.result() for f in [ex.submit(t) for t in thunks]]
