def sample(r, t, w, pos=False):
    z = t in ("complex", "carray")
    if pos: return [[r.choice([1, 2]), 0] for _ in range(w)]
    return [[r.randrange(-3, 4), r.randrange(-3, 4) if z else 0] for _ in range(w)]

def split(r, n, k, empty=False):
    """n samples over k ranks, each with at least one unless empty"""
    if empty:
        s = [0] * k
        for _ in range(n): s[r.randrange(k)] += 1
        return s
    s = [1] * k
    for _ in range(n - k): s[r.randrange(k)] += 1
    return s

def history(r):
    t = r.choice(["double", "complex", "array", "carray"])
    w = r.choice([1, 2]) if "array" in t else 1
    ops = []
    for _ in range(6):
        op = r.choice(["mean", "err", "jack", "jack", "jack", "log"])
        if op == "err" and "array" in t: op = "mean"
        k = r.choice([1, 1, 2, 2, 3, 4])
        f, serial = "id", r.random() < 0.5
        o = {"op": op, "serial": serial, "acc": r.random() < 0.4, "lmax": 0}
        if op == "jack":
            f = r.choice(["id", "sq", "mul", "div"])
            n = max(2, k, r.randrange(2, 6 if f == "div" else 7))
            s = split(r, n, k)
        elif op == "log":
            n = max(1, r.randrange(1, 19)); s = split(r, n, k, r.random() < 0.3); o["lmax"] = r.choice([-1, 1, 2, 3, 5])
        else:
            n = max(2, k, r.randrange(2, 16)); s = split(r, n, k)
        o["f"] = f
        o["x"] = [[sample(r, t, w) for _ in range(m)] for m in s]
        o["y"] = [[sample(r, t, w, f == "div") for _ in range(m)] for m in s] if f in ("mul", "div") else []
        ops.append(o)
    return {"kind": "ranks", "type": t, "w": w, "one": [[0, 0]] * w, "ops": ops}

def check(c):
    exe = c.build("statx", ["statx.cpp", "repo:stat/histograms.cpp"])
    c.model("MCMerge", "MCMerge")
    if c.thorough: c.model("MCMerge", "MCMerge_big")
    hs = [history(c.rng) for _ in range(c.pick(300, 6000))]
    c.validate("TraceStats", "TraceStats", c.run_driver([exe], hs, "ranks"), "averages over ranks")
