"""Common machinery of the checks: build drivers against /repo's working tree, explore the TLA+ specifications with TLC,
turn TLC behaviours into operation sequences for the drivers, and let TLC decide whether a recorded trace of the real code is
a behaviour of the specification."""
import concurrent.futures as cf
import json, os, random, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")
NCPU = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    pass


def jdump(ev):
    return json.dumps(ev, separators=(",", ":"))


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        try: self.seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
        except ValueError: self.seed = 1
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.t0 = time.time()
        self.dir = os.path.join(WORK, pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.traces = self.events = 0
        self.models = []
        self.samples = []
        self.violations = []
        self.assumptions = []
        self.extra = {}
        self.notes = []

    @property
    def thorough(self): return self.tier == "thorough"

    def pick(self, quick, thorough): return thorough if self.thorough else quick

    def path(self, *a): return os.path.join(self.dir, *a)

    def log(self, *a): print(f"[{self.pid} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    # ---------------------------------------------------------------- building
    CXX = ["g++", "-std=c++23", "-w", "-pipe"]

    def inc(self):
        return ["-I", os.path.join(VERIF, "shim"), "-I", os.path.join(VERIF, "drivers"), "-I", os.path.join(REPO, "c++"),
                "-I", self.verdir()]

    def verdir(self):
        """a generated triqs/version.hpp, so that nothing depends on a previous build of /repo"""
        d = self.path("gen")
        f = os.path.join(d, "triqs", "version.hpp")
        if not os.path.exists(f):
            os.makedirs(os.path.dirname(f), exist_ok=True)
            src = open(os.path.join(REPO, "c++/triqs/version.hpp.in")).read()
            src = re.sub(r"@\w*VERSION_MAJOR@", "3", src)
            src = re.sub(r"@\w*VERSION_MINOR@", "2", src)
            src = re.sub(r"@\w*VERSION_PATCH@", "0", src)
            src = re.sub(r"@\w*VERSION@", "3.2.0", src)
            src = re.sub(r"@\w*@", "0", src)
            with open(f + ".tmp", "w") as g: g.write(src)
            os.replace(f + ".tmp", f)
        return d

    def build(self, name, srcs, flags=(), opt="-O1", libs=()):
        """srcs: paths relative to drivers/ or, with a leading 'repo:', to /repo/c++/triqs"""
        objs, jobs = [], []
        for s in srcs:
            p = os.path.join(REPO, "c++/triqs", s[5:]) if s.startswith("repo:") else os.path.join(VERIF, "drivers", s)
            if not os.path.exists(p): raise CheckError(f"source {p} is missing")
            o = self.path(name + "." + re.sub(r"\W", "_", s) + ".o")
            objs.append(o)
            jobs.append(self.CXX + [opt, *flags, *self.inc(), "-c", p, "-o", o])
        self.verdir()
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for j, r in zip(jobs, ex.map(lambda j: subprocess.run(j, capture_output=True, text=True), jobs)):
                if r.returncode: raise CheckError("build failed: " + " ".join(j) + "\n" + r.stderr[:4000])
        exe = self.path(name)
        r = subprocess.run(self.CXX + [*flags, *objs, "-o", exe, "-lpthread", *libs], capture_output=True, text=True)
        if r.returncode: raise CheckError("link failed:\n" + r.stderr[:4000])
        self.log("built", name)
        return exe

    def build_many(self, specs):
        with cf.ThreadPoolExecutor(4) as ex:
            return list(ex.map(lambda kw: self.build(**kw), specs))

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, args=(), env=None, heap="4g", timeout=800, workers=None, tag=None):
        tag = tag or f"{module}-{cfg}-{time.time_ns()}"
        meta = self.path("meta", re.sub(r"\W", "_", tag))
        os.makedirs(meta, exist_ok=True)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", f"-Xmx{heap}"]
        if workers == 1: cmd += ["-XX:ParallelGCThreads=1", "-XX:TieredStopAtLevel=4"]
        cmd += ["-cp", JAR, f"-DTLA-Library={SPEC}", "tlc2.TLC",
               "-config", os.path.join(SPEC, cfg + ".cfg"), "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers or NCPU), *args, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=meta)
            out, rc = r.stdout + r.stderr, r.returncode
        except subprocess.TimeoutExpired as x:
            out, rc = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), -99
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    def model(self, module, cfg, timeout=600, args=(), constants=None):
        """exhaustive exploration of a bounded instance; the invariants must hold (they do not depend on /repo)"""
        t = time.time()
        rc, out = self.tlc(module, cfg, timeout=timeout, args=args, tag=f"mc-{cfg}")
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if rc != 0 or not m:
            raise CheckError(f"TLC did not establish {cfg} of {module} (rc {rc}):\n" + out[-3000:])
        gen, dist = int(m.group(1)), int(m.group(2))
        dm = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.states += dist
        self.transitions += gen
        self.models.append(dict(module=module, cfg=cfg, distinct=dist, generated=gen, depth=int(dm.group(1)) if dm else None,
                                wall_s=round(time.time() - t, 1)))
        self.log(f"model {cfg}: {dist} distinct states, {gen} generated")

    def behaviours(self, module, cfg, num, depth, key="opj", seed=None, timeout=300):
        """operation sequences of random behaviours of the specification: list of lists of JSON ops (variable `key`, a JSON string)"""
        d = self.path("sim-" + cfg)
        os.makedirs(d, exist_ok=True)
        nw = 1  # one worker, so that the behaviours depend on the seed only
        rc, out = self.tlc(module, cfg, workers=nw, timeout=timeout, tag=f"sim-{cfg}",
                           args=["-simulate", f"file={d}/b,num={num}", "-depth", str(depth), "-seed", str(self.seed if seed is None else seed)])
        if rc not in (0,) or "rror:" in out: raise CheckError(f"simulation of {cfg} failed (rc {rc}):\n" + out[-3000:])
        res = []
        pat = re.compile(r"/\\ " + key + r" = \"(.*)\"$")
        for fn in sorted(os.listdir(d), key=lambda x: [int(y) for y in re.findall(r"\d+", x)]):
            ops = []
            for line in open(os.path.join(d, fn)):
                m = pat.match(line.rstrip("\n"))
                if m:
                    o = json.loads(json.loads('"' + m.group(1) + '"'))
                    if o: ops.append(o)
            res.append(ops)
        shutil.rmtree(d, ignore_errors=True)
        self.notes.append(f"{len(res)} behaviours generated by TLC from {cfg}, up to {depth} steps")
        self.log(f"generated {len(res)} behaviours from {cfg}")
        return res

    def tour(self, module, cfg, key="opj", maxlen=60, limit=None, timeout=300):
        """operation sequences which together take every transition of the (small) state graph of a model
        (no VIEW in the cfg: the label of a node must be the operation that led to it)"""
        f = self.path(f"graph-{cfg}.dot")
        rc, out = self.tlc(module, cfg, workers=1, timeout=timeout, tag=f"dump-{cfg}", args=["-dump", "dot", f])
        if rc != 0: raise CheckError(f"dump of {cfg} failed (rc {rc}):\n" + out[-3000:])
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.states += int(m.group(2)); self.transitions += int(m.group(1))
        self.models.append(dict(module=module, cfg=cfg, distinct=int(m.group(2)), generated=int(m.group(1)), dumped=True))
        ops, succ, init = {}, {}, []
        node = re.compile(r'^(-?\d+) \[label="(.*)"(,style = filled)?\]')
        edge = re.compile(r"^(-?\d+) -> (-?\d+)")
        for line in open(f):
            line = line.rstrip("\n")
            e = edge.match(line)
            if e:
                succ.setdefault(e.group(1), []).append(e.group(2)); continue
            n = node.match(line)
            if n:
                if n.group(3): init.append(n.group(1))
                lab = n.group(2).replace("\\n", "\n").replace('\\"', '"').replace("\\\\", "\\")
                mm = re.search(r"/\\ " + key + r' = "(.*)"(?:\n|$)', lab)
                ops[n.group(1)] = json.loads(json.loads('"' + mm.group(1) + '"')) if mm else None
        os.remove(f)
        res = []
        todo = {(a, b) for a in succ for b in succ[a] if a != b}
        ntot = len(todo)
        out_todo = {}
        for a, b in sorted(todo): out_todo.setdefault(a, []).append(b)
        # greedy walks: follow untaken edges; when stuck, shortest path to a node with untaken edges; else restart
        from collections import deque
        def path_to_untaken(s):
            seen, dq = {s: None}, deque([s])
            while dq:
                u = dq.popleft()
                if out_todo.get(u):
                    p = []
                    while seen[u] is not None: p.append(u); u = seen[u]
                    return p[::-1]
                for v in succ.get(u, ()):
                    if v not in seen: seen[v] = u; dq.append(v)
            return None
        while any(out_todo.values()):
            if limit and len(res) >= limit: break
            start = self.rng.choice(init)
            cur, seq = start, []
            progressed = False
            while len(seq) < maxlen:
                if out_todo.get(cur):
                    nx = out_todo[cur].pop(self.rng.randrange(len(out_todo[cur])))
                    progressed = True
                    steps = [nx]
                else:
                    steps = path_to_untaken(cur)
                    if steps is None or len(seq) + len(steps) > maxlen and progressed: break
                for s in steps:
                    if ops[s]: seq.append(ops[s])
                    cur = s
            if not progressed: break
            res.append(seq)
        left = sum(len(v) for v in out_todo.values())
        self.notes.append(f"tour of {cfg}: {ntot-left} of {ntot} transitions in {len(res)} operation sequences")
        self.log(f"tour of {cfg}: {ntot-left}/{ntot} transitions, {len(res)} sequences")
        return res

    # ---------------------------------------------------------------- running the implementation
    def run_driver(self, cmd, histories, name, timeout=120, env=None, shards=None, mem_gb=8):
        """Feeds the histories (lists of ops, one JSON document per line) to the driver, in shards; returns the trace files.
        The driver writes one event per line to stdout, flushed, beginning each history with an event e=Reset.
        If it dies or hangs the trace ends with an event which no specification accepts."""
        shards = shards or min(NCPU, max(1, len(histories) // 4))
        parts = [histories[i::shards] for i in range(shards)]
        files = []
        def one(i):
            inp, outp, err = self.path(f"{name}.{i}.in"), self.path(f"{name}.{i}.trace"), self.path(f"{name}.{i}.err")
            with open(inp, "w") as f:
                for h in parts[i]: f.write(jdump(h) + "\n")
            for attempt in (1, 2):
                bad = self._run1(cmd, inp, outp, err, timeout * attempt, env, mem_gb)
                if bad is None: break
            if bad is not None:
                # drop an incomplete last line
                data = open(outp, "rb").read()
                data = data[: data.rfind(b"\n") + 1]
                with open(outp, "wb") as f: f.write(data + (jdump(bad) + "\n").encode())
            return outp
        with cf.ThreadPoolExecutor(NCPU) as ex: files = list(ex.map(one, range(shards)))
        return [f for f in files if os.path.getsize(f)]

    def _run1(self, cmd, inp, outp, err, timeout, env, mem_gb):
        import resource
        e = dict(os.environ); e.update(env or {})
        e.setdefault("PYTHONDONTWRITEBYTECODE", "1"); e["PYTHONHASHSEED"] = "0"; e["OMP_NUM_THREADS"] = "1"; e["OPENBLAS_NUM_THREADS"] = "1"
        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            os.setsid()
        with open(inp) as fi, open(outp, "w") as fo, open(err, "w") as fe:
            p = subprocess.Popen(cmd, stdin=fi, stdout=fo, stderr=fe, env=e, cwd=self.dir, preexec_fn=lim)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                p.wait()
                return {"e": "Hang", "after_s": timeout}
        if rc == 0: return None
        tail = open(err, errors="replace").read()[-600:]
        return {"e": "Crash", "rc": rc, "stderr": tail}

    # ---------------------------------------------------------------- deciding
    def validate(self, module, cfg, files, what="", timeout=700, heap="3g", expect_reject=False):
        """TLC decides for each trace file whether it is a behaviour of the specification."""
        def one(f):
            n = sum(1 for _ in open(f))
            for attempt in (1, 2):
                rc, out = self.tlc(module, cfg, workers=1, env={"TRACE": f}, heap=heap, timeout=timeout, tag=f"tr-{cfg}-{os.path.basename(f)}")
                if rc == 0 and "No error has been found" in out: return f, n, None, out
                m = re.search(r"REJECTED_AT[^0-9]*(\d+)", out)
                if m: return f, n, int(m.group(1)), out
            # values outside of what the specification ranges over (an overflow, an index beyond a domain): not a behaviour either
            m = re.search(r"([\d,]+) distinct states found", out)
            if m and re.search(r"Attempted to|Overflow when computing|CHOOSE x|not in the domain|but the value was", out) and not re.search(r"OutOfMemory|StackOverflow|GC overhead", out):
                k = int(m.group(1).replace(",", ""))
                if 1 <= k <= n: return f, n, k, out
            raise CheckError(f"TLC could not evaluate {module} on {f} (rc {rc}):\n" + out[-3500:])
        ok = True
        with cf.ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(one, files))
        for f, n, rej, out in res:
            lines = open(f).read().splitlines()
            hist = sum(1 for l in lines if '"e":"Reset"' in l)
            if rej is None:
                self.traces += hist
                self.events += n
                continue
            ok = False
            if expect_reject: continue
            i = rej - 1
            a = max([k for k in range(min(i, len(lines) - 1) + 1) if '"e":"Reset"' in lines[k]] or [0])
            b = next((k for k in range(i + 1, len(lines)) if '"e":"Reset"' in lines[k]), len(lines))
            self.traces += sum(1 for l in lines[:a] if '"e":"Reset"' in l)
            os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
            rp = os.path.join(WORK, "replay", f"{self.pid}-{len(self.violations)}.json")
            with open(rp, "w") as g:
                json.dump(dict(property=self.pid, module=module, cfg=cfg, what=what, rejected_event_index_in_history=i - a,
                               rejected_event=json.loads(lines[i]) if i < len(lines) else None,
                               history=[json.loads(l) for l in lines[a:min(b, i + 3)]], tlc=out[-3000:]), g, indent=1)
            self.violations.append((rp, f"{what or cfg}: event {i-a} of the history is not allowed by {module}: " + (lines[i][:300] if i < len(lines) else "")))
        if files and not self.samples and res[0][2] is None:
            with open(files[0]) as f: self.samples = [json.loads(x) for _, x in zip(range(6), f)]
        self.log(f"validated {len(files)} trace files ({what or cfg}): {'accepted' if ok else 'REJECTED'}")
        return ok

    # ---------------------------------------------------------------- finish
    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_validated=self.events, models=self.models, samples=self.samples, notes=self.notes, **self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        for rp, msg in self.violations:
            print(f"VIOLATION property={self.pid} replay={rp}")
            print("  " + msg)
        self.log(f"{'FAILED' if self.violations else 'ok'}: {self.states} states, {self.traces} histories, {self.events} events")
        return 1 if self.violations else 0


def findings(pid):
    """entries of the committed known-findings file for this property (empty when there is none)"""
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f): return []
    return [x for x in json.load(open(f)).get("known", []) if x["property"] == pid]


def main(pid, fn):
    c = Check(pid)
    try:
        fn(c)
        rc = c.finish()
    except CheckError as e:
        print(f"ERROR in the check of {pid}: {e}", flush=True)
        rc = 3
        if c.violations: rc = c.finish()
    sys.exit(rc)
