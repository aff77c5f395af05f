"""Work shared by ranks (triqs/utility/mpi*.py, dist_on_nodes.py).  The ranks are threads, each with its own copy of the
modules and its own stand-in for mpi4py.MPI; the children of the master are real processes."""
import sys, json, os, threading, types, importlib.util, io, time, tempfile, collections
import numpy as np
ROOT = os.path.join(os.environ["VERIF_REPO"], "python")
from pystub import package
class Stuck(Exception): pass
def emit(e, **k): os.write(1, (json.dumps(dict(e=e, **k), separators=(",", ":")) + "\n").encode())
LIMIT = 20.0
STUCK = []
class Hub:
    def __init__(self, size, bits):
        self.size, self.bits, self.nb = size, bits, 0
        self.cv = threading.Condition(); self.box = collections.defaultdict(collections.deque); self.coll = {}; self.count = [0] * size; self.dead = False
    def bit(self):
        self.nb += 1
        return not self.bits or self.bits[self.nb % len(self.bits)]
    def wait(self, pred):
        if not self.cv.wait_for(lambda: self.dead or pred(), LIMIT) or self.dead: self.dead = True; self.cv.notify_all(); raise Stuck()
    def enter(self, rank, what, x):
        i = self.count[rank]; self.count[rank] += 1
        c = self.coll.setdefault(i, {"what": what, "in": {}})
        if c["what"] != what: self.dead = True; self.cv.notify_all(); raise Stuck()
        c["in"][rank] = x; self.cv.notify_all()
        return c
    def full(self, c): return len(c["in"]) == self.size
class Req:
    def __init__(self, f): self.f = f; self.done = False
    def Test(self): return self.test()[0]
    def test(self, status=None):
        with self.hub.cv:
            return self.f()
class Comm:
    def __init__(self, hub, rank): self.hub, self.r = hub, rank
    def Get_rank(self): return self.r
    def Get_size(self): return self.hub.size
    rank = property(Get_rank); size = property(Get_size)
    def coll(self, what, x, f):
        h = self.hub
        with h.cv:
            c = h.enter(self.r, what, x); h.wait(lambda: h.full(c))
            return f([c["in"][i] for i in range(h.size)])
    def bcast(self, x, root=0): return self.coll(("bcast", root), x, lambda v: v[root])
    def allreduce(self, x, op=lambda a, b: a + b):
        def red(v):
            r = v[0]
            for y in v[1:]: r = op(r, y)
            return r
        return self.coll(("allreduce",), x, red)
    def barrier(self): self.coll(("barrier",), None, lambda v: None)
    Barrier = barrier
    def Ibarrier(self):
        h = self.hub
        with h.cv: c = h.enter(self.r, ("barrier",), None)
        t0 = time.time()
        def test():
            if h.dead or time.time() - t0 > LIMIT: h.dead = True; h.cv.notify_all(); raise Stuck()
            return (h.full(c), None)
        r = Req(test); r.hub = h
        return r
    def send(self, val, dest, tag=0):
        with self.hub.cv: self.hub.box[(self.r, dest)].append(val); self.hub.cv.notify_all()
    def recv(self, source=0, tag=0):
        h = self.hub
        with h.cv:
            h.wait(lambda: h.box[(source, self.r)])
            return h.box[(source, self.r)].popleft()
    def irecv(self, source=0, tag=0):
        h, r = self.hub, Req(None); r.hub = h
        def test():
            if not h.bit(): return (False, None)
            h.wait(lambda: h.box[(source, self.r)])
            return (True, h.box[(source, self.r)].popleft())
        r.f = test
        return r
class Os:
    "os for the master: the schedule decides when the end of the child is noticed"
    def __init__(self, hub): self.hub = hub
    def __getattr__(self, n): return getattr(os, n)
    def waitpid(self, pid, flags):
        if flags & os.WNOHANG and not self.hub.bit(): return (0, 0)
        return os.waitpid(pid, 0)
def load(path, name, stubs):
    src = open(os.path.join(ROOT, path)).read()
    m = types.ModuleType(name); m.__file__ = path
    m.__package__ = name.rpartition(".")[0]
    with LOCK:
        old = {k: sys.modules.get(k) for k in stubs}
        sys.modules.update(stubs)
        try: exec(compile(src, path, "exec"), m.__dict__)
        finally:
            for k, v in old.items():
                if v is None: sys.modules.pop(k, None)
                else: sys.modules[k] = v
    return m
LOCK = threading.RLock()
package("triqs"); package("triqs.utility")
class Intracomm(Comm): pass
def mpi_module(hub, rank, serial):
    null = types.ModuleType("mpi4py")
    null.MPI = types.SimpleNamespace(COMM_WORLD=Intracomm(hub, rank), SUM=lambda a, b: a + b, MAX=max, Intracomm=Intracomm)
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        m = load("triqs/utility/mpi_nompi.py" if serial else "triqs/utility/mpi_mpi4py.py", "triqs.utility.mpi", {"mpi4py": null, "mpi4py.MPI": null.MPI})
    finally: sys.stderr = err
    m.MPI_ = null.MPI
    return m
def ranks(size, bits, serial, body):
    hub = Hub(size, bits)
    mods = [mpi_module(hub, r, serial) for r in range(size)]
    out = [None] * size
    def run(r):
        try: out[r] = body(r, mods[r], hub)
        except Stuck: out[r] = "Stuck"
        except Exception as e: out[r] = "Raised " + type(e).__name__ + " " + str(e)[:80]; hub.dead = True
    ts = [threading.Thread(target=run, args=(r,), daemon=True) for r in range(size)]
    for t in ts: t.start()
    for t in ts: t.join(60)
    bad = [o for o in out if isinstance(o, str) and o.split()[0] in ("Stuck", "Raised")] + ["Hang" for t in ts if t.is_alive()]
    if bad:
        emit("Failed", why=bad[0])
        STUCK.append(bad[0])
        if sum(b in ("Stuck", "Hang") for b in STUCK) > 1: os._exit(0)
    return None if bad else out
def loop(o):
    base = tempfile.mkdtemp(prefix="mpiw"); here = os.getcwd(); os.chdir(base)
    size = o["size"]
    emit("Begin", size=size, items=o["items"])
    def body(r, mpi, hub):
        dm = load("triqs/utility/dist_on_nodes.py", "triqs.utility.dist_on_nodes", {"triqs.utility.mpi": mpi})
        mpi.barrier = (lambda b: lambda *a: b(0))(mpi.barrier)
        dm.os = Os(hub)
        rank = r
        def val(x):
            emit("Start", n=node(), x=x)
            if o.get("slow"): time.sleep(0.0005 * ((x * 7) % 4))
            emit("Finish", n=node(), x=x)
            return 3 * x + 1
        pid0 = os.getpid()
        # a child may repeat the step of its parent on its copy of the stack
        def took(x):
            if os.getpid() == pid0: emit("Take", x=-1 if x is None else back(x))
        def node(): return rank
        conv = {0: lambda x: x, 1: lambda x: {"v": x}, 2: lambda x: np.array([x, x])}[o["as"]]
        back = {0: lambda x: x, 1: lambda x: x["v"], 2: lambda x: int(x[0])}[o["as"]]
        if o["cls"] == "stack":
            class D(dm.DistributionOnNodesOneStack):
                SleepTime = 0.0005
                def the_function(self, x): x = back(x); return (x, val(x))
                def __next__(self):
                    x = dm.DistributionOnNodesOneStack.__next__(self); took(x); return x
                def treat(self, x, n): pass
                def treate(self, x, n):
                    emit("Treat", n=n, x=x[0], v=x[1], more=[]); dm.DistributionOnNodesOneStack.treate(self, x, n)
            d = D([None if x == -1 else conv(x) for x in o["items"]])
        else:
            class D(dm.DistributionOnNodes):
                SleepTime = 0.0005
                def __init__(self): self.todo = [None if x == -1 else conv(x) for x in o["items"]]
                def finished(self): return len(self.todo) == 0
                def __next__(self):
                    x = self.todo.pop(0); took(x); return x
                def the_function(self, x): x = back(x); return (x, val(x))
                def treate(self, x, n):
                    more = [x[0] + 10] if o.get("spawn") and 2 <= x[0] <= 9 else []
                    emit("Treat", n=n, x=x[0], v=x[1], more=more)
                    self.todo = [conv(m) for m in more] + self.todo
            d = D()
        res = d.run()
        emit("Leave", n=r)
        return [[a, b[0], b[1]] for a, b in res] if o["cls"] == "stack" else []
    out = ranks(size, o["bits"], o["serial"], body)
    if out: emit("Over", res=out[0] if o["cls"] == "stack" else [], got=o["cls"] == "stack", others=sum(len(x) for x in out[1:]))
    os.chdir(here)
    for f in os.listdir(base): os.unlink(os.path.join(base, f))
    os.rmdir(base)
def cut(o):
    lo, n, size = o["lo"], o["n"], o["size"]
    A = np.arange(n * 2).reshape(n, 2)
    def body(r, mpi, hub):
        s = mpi.slice_array(A)
        assert s.base is not None
        s2 = mpi.slice_array(np.arange(n))
        return [[int(mpi.slice_inf(lo, lo + n - 1)), int(mpi.slice_sup(lo, lo + n - 1))], [int(x) for x in s[:, 1]], [int(x) for x in s2]]
    out = ranks(size, [], o["serial"], body)
    if out: emit("Cut", lo=lo, n=n, size=size, parts=[x[0] for x in out], rows=[x[1] for x in out], ones=[x[2] for x in out])
def share(o):
    "collective calls and messages"
    size = o["size"]
    def body(r, mpi, hub):
        x = o["v"][r]; res = {}
        emit("Enter", r=r)
        time.sleep(0.0003 * o["late"][r])
        emit("Ready", r=r)
        mpi.barrier(*([] if o["poll"] < 0 else [o["poll"]]))
        emit("Passed", r=r, size=size)
        res["b"] = mpi.bcast(x, root=o["root"])
        res["b0"] = mpi.bcast(x)
        res["s"] = mpi.all_reduce(x)
        res["a"] = [int(y) for y in mpi.all_reduce(np.array([x, 2 * x]))]
        if not o["serial"]: res["m"] = mpi.all_reduce(x, op=mpi.MPI_.MAX)
        else: res["m"] = mpi.all_reduce(x, op=max)
        res["c"] = mpi.all_reduce(x, comm=mpi.world)
        res["o"] = mpi.all_reduce(mpi.world, x, lambda a, b: a + b)
        res["rank"], res["size"], res["master"] = mpi.rank, mpi.size, bool(mpi.is_master_node())
        # a ring of messages
        mpi.send([x, r], (r + 1) % size)
        y = mpi.recv((r - 1) % size)
        res["ring"] = [int(y[0]), int(y[1])]
        # report: on the master only, up to the verbosity in force
        return res
    out, sys.stdout = None, io.StringIO()
    try: out = ranks(size, [], o["serial"], body)
    finally: text, sys.stdout = sys.stdout.getvalue(), sys.__stdout__
    if out: emit("Share", v=o["v"], root=o["root"], size=size, out=out)
def report(o):
    size = o["size"]
    err, sys.stderr = sys.stderr, io.StringIO(); sys.stdout = io.StringIO()
    def body(r, mpi, hub):
        for i in range(size):
            mpi.barrier(0)
            if i == r:
                for k in o["calls"]: mpi.report(*["%d.%d" % (r, t) for t in k["texts"]], **({"Verbosity_Level": k["level"]} if k["level"] >= 0 else {}), **({"stderr": True} if k["err"] else {}))
        mpi.barrier(0)
    out = None
    try: out = ranks(size, [], o["serial"], body)
    finally: a, b, sys.stdout, sys.stderr = sys.stdout.getvalue(), sys.stderr.getvalue(), sys.__stdout__, err
    split = lambda s: [[int(t) for t in l.split(".")] for l in s.splitlines() if l.count(".") == 1 and l.replace(".", "").isdigit()]
    if out: emit("Report", size=size, calls=o["calls"], out=split(a), err=split(b))
def hosts(o):
    err, sys.stdout = None, io.StringIO()
    def body(r, mpi, hub):
        mpi.master_gets_host_names(); return sorted(mpi.HostNames) if r == 0 else []
    try: out = ranks(o["size"], [], o["serial"], body)
    finally: text, sys.stdout = sys.stdout.getvalue(), sys.__stdout__
    if out: emit("Hosts", size=o["size"], lines=sum(l.startswith("Node ") for l in text.splitlines()))
VARS = ["OMPI_COMM_WORLD_RANK", "PMI_RANK", "CRAY_MPICH_VERSION", "TRIQS_FORCE_MPI_INIT"]
def pick(o):
    "which implementation the package takes"
    mods = {}
    for n in ("mpi_mpi4py", "mpi_nompi"):
        mods["triqs.utility." + n] = types.ModuleType(n); mods["triqs.utility." + n].which = n
    save = {v: os.environ.pop(v, None) for v in VARS}
    for v in o["env"]: os.environ[VARS[v]] = "0" if o["zero"] else "1"
    sys.stdout = io.StringIO()
    try:
        m = types.ModuleType("triqs.utility.mpi"); m.__package__ = "triqs.utility"
        sys.modules.update(mods)
        exec(compile(open(os.path.join(ROOT, "triqs/utility/mpi.py.in")).read(), "mpi.py.in", "exec"), m.__dict__)
    finally:
        sys.stdout = sys.__stdout__
        for v in VARS:
            os.environ.pop(v, None)
            if save[v] is not None: os.environ[v] = save[v]
        for n in mods: sys.modules.pop(n)
    emit("Pick", env=len(o["env"]), which=m.which)
for line in sys.stdin:
    H = json.loads(line)
    emit("Reset")
    for o in H["ops"]: {"loop": loop, "cut": cut, "share": share, "report": report, "hosts": hosts, "pick": pick}[o["op"]](o)
