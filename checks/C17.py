def comps(r, t, w):
    z = t in ("complex", "carray")
    return [[r.randrange(-3, 4), r.randrange(-3, 4) if z else 0] for _ in range(w)]

def setup(r):
    t = r.choice(["double", "complex", "array", "carray"])
    w = r.choice([1, 2, 3]) if "array" in t else 1
    return t, w

def history(r):
    t, w = setup(r)
    log = r.random() < 0.6
    ops, ids, n = [], {}, 0
    lim = (70 if r.random() < 0.2 else 30) if log else 150
    def new(i):
        lmax = r.choice([-1, -1, 1, 2, 3, 6]) if log else 0
        nmax = r.choice([-1, 0, 1, 1, 2, 2, 3, 4, 5, 7, 8])
        cap = r.choice([1, 1, 1, 2, 3, 4, 7])
        ids[i] = 0
        ops.append({"op": "new", "id": i, "lmax": lmax, "nmax": nmax, "cap": cap, "obs": True})
    new(1)
    if r.random() < 0.4: new(2)
    for _ in range(r.randrange(5, lim)):
        i = r.choice(list(ids)); x = r.random()
        if x < 0.84:
            if ids[i] >= lim: continue
            ids[i] += 1
            ops.append({"op": "add", "id": i, "x": comps(r, t, w), "obs": r.random() < 0.25})
        elif x < 0.88: ops.append({"op": "compress", "id": i, "f": r.choice([-1, 0, 1, 2, 2, 3, 4, 5, 40]), "obs": True})
        elif x < 0.97:
            j = r.randrange(1, 4)
            op = r.choice(["copy", "h5", "h5"])
            ids[j] = ids[i]
            ops.append({"op": op, "id": j, "j": i, "how": r.randrange(2), "obs": True})
        elif x < 0.985:
            j = r.randrange(1, 4)
            if j == i: continue
            ids[j] = ids.pop(i)
            ops.append({"op": "move", "id": j, "j": i, "how": 0, "obs": True})
        else: new(r.randrange(1, 4))
    for i in ids: ops.append({"op": "obs", "id": i})
    return {"kind": "acc", "type": t, "w": w, "one": [[0, 0]] * w, "ops": ops}

def from_model(r, b):
    t, w = setup(r)
    ops = [{"op": "new", "id": 1, "lmax": -1, "nmax": 2, "cap": 1, "obs": True}]
    for o in b:
        o = dict(o)
        if o["op"] == "add": o["x"] = [[o["x"][0][0] * (k + 1), 0] for k in range(w)]
        o["how"] = r.randrange(2)
        o["obs"] = True
        ops.append(o)
    return {"kind": "acc", "type": t, "w": w, "one": [[0, 0]] * w, "ops": ops}

def taus(r):
    ops = []
    for _ in range(20):
        b = r.randrange(1, 13)
        ops.append({"a": r.randrange(0, 41), "b": b})
    return {"kind": "tau", "w": 1, "ops": ops}

def check(c):
    exe = c.build("statx", ["statx.cpp", "repo:stat/histograms.cpp"])
    c.model("MCAccumulator", "MCAccumulator")
    if c.thorough: c.model("MCAccumulator", "MCAccumulator_big")
    hs = [from_model(c.rng, b) for b in c.behaviours("MCAccumulator", "MCAccumulator_sim", num=c.pick(40, 600), depth=40)]
    hs += [history(c.rng) for _ in range(c.pick(250, 5000))] + [taus(c.rng) for _ in range(4)]
    acc = [h for h in hs if h["kind"] == "acc"]
    c.validate("TraceAccumulator", "TraceAccumulator", c.run_driver([exe], acc, "acc"), "accumulated samples")
    c.validate("TraceStats", "TraceStats", c.run_driver([exe], [h for h in hs if h["kind"] == "tau"], "tau"), "autocorrelation times")
