"""Root finding: recorded evaluations of dichotomy and bound_and_bisect against the bracketing automaton RootFind."""
import sys
import vlib
NAMES = ["", "mu", "N 100%", "x_1"]
def func(r, kind):
    n = r.randrange(2, 7)
    xs = sorted(r.sample(range(-12, 13), n))
    if kind == "inc":
        ys = [r.randrange(-6, 7)]
        for i in range(n - 1): ys.append(ys[-1] + r.randrange(1, 6) * (xs[i + 1] - xs[i]) / r.choice([1, 1, 2, 4]))
        return {"t": "pl", "xs": xs, "ys": ys, "l": r.randrange(1, 5), "r": r.randrange(1, 5)}
    if kind == "dec":
        f = func(r, "inc")
        return dict(f, ys=[-y for y in f["ys"]], l=-f["l"], r=-f["r"])
    if kind == "sat":    # non-decreasing, constant outside
        ys = [0]
        for i in range(n - 1): ys.append(ys[-1] + r.randrange(0, 4))
        return {"t": r.choice(["pl", "pl", "step"]), "xs": xs, "ys": ys, "l": 0, "r": 0}
    ys = [r.randrange(-5, 6) for _ in xs]
    return {"t": {"any": "pl", "step": "step", "nan": "nan"}[kind], "xs": xs, "ys": ys, "l": r.choice([0, 1, -1]), "r": r.choice([0, 1, -1])}
def value(f, x):
    xs, ys = f["xs"], f["ys"]
    if x <= xs[0]: return ys[0] + f["l"] * (x - xs[0])
    if x >= xs[-1]: return ys[-1] + f["r"] * (x - xs[-1])
    i = max(j for j in range(len(xs)) if xs[j] <= x)
    return ys[i] if f["t"] == "step" else ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
def case(r):
    kind = r.choice(["inc", "inc", "inc", "dec", "sat", "sat", "any", "step", "nan"])
    f = func(r, kind)
    o = {"algo": r.choice(["dich", "bis"]), "f": f, "x0": r.choice([r.randrange(-12, 13), r.randrange(-48, 49) / 4, r.choice(f["xs"])]),
         "dx": r.choice([1, 1, 0.5, 0.25, 2, 3, 8]), "pr": r.choice([1e-9, 1e-6, 1e-3, 0.125, 1, 0]), "max": r.choice([1000, 1000, 300, 40, 7, 3, 1, 0]),
         "verb": r.choice([0, 1, 2, 3]), "name": r.choice(NAMES)}
    o["y"] = r.choice([0, value(f, o["x0"]), r.randrange(-20, 21), r.randrange(-40, 41) / 4, r.choice(f["ys"]), value(f, r.randrange(-48, 49) / 4)])
    if o["algo"] == "dich":
        if r.random() < 0.2: o["dx"] = -o["dx"]
        o["must"] = must_dich(o, kind)
    else:
        o["pr"] = max(o["pr"], 1e-6)
        if r.random() < 0.1: o["dx"] = -o["dx"]
        o["must"] = must_bis(o, kind)
    return o
def steps(o, d, reach):
    "first k with f(x0 + k d) on the other side of y (or on y)"
    s = value(o["f"], o["x0"]) - o["y"]
    for k in range(reach + 1):
        v = value(o["f"], o["x0"] + k * d) - o["y"]
        if v == 0 or (v > 0) != (s > 0): return k
    return None
def must_dich(o, kind):
    if kind != "inc" or o["max"] < 1000 or o["pr"] <= 0: return False
    s = value(o["f"], o["x0"]) - o["y"]
    return steps(o, -abs(o["dx"]) if s > 0 else abs(o["dx"]), 60) is not None
def must_bis(o, kind):
    if kind not in ("inc", "dec", "sat") or o["max"] < 40 or o["max"] > 5000: return False
    d = value(o["f"], o["x0"] + o["dx"]) - value(o["f"], o["x0"])
    if kind == "sat" and d < 0: return False
    up = o["dx"] if d >= 0 else -o["dx"]
    if kind == "sat" and o["dx"] < 0 and d == 0: return False
    if kind == "dec" and d == 0: return False
    # both bounds within reach: some point with f <= y and one with f >= y
    s = value(o["f"], o["x0"]) - o["y"]
    return steps(o, up if s < 0 else -up, o["max"] - 2) is not None
def model_case(r, b):
    n = len(b["f"])
    f = {"t": r.choice(["pl", "step"]), "xs": list(range(n)), "ys": b["f"], "l": 0, "r": 0}
    return {"algo": b["algo"], "f": f, "x0": b["x0"], "y": 0, "dx": r.choice([1, 2]), "pr": max(b["pr"], 1e-3) if b["algo"] == "bis" else b["pr"], "max": b["max"], "verb": 0, "name": "", "must": False}
def check(c):
    c.model("MCRootFind", "MCRootFind"); 
    if c.thorough: c.model("MCRootFind", "MCRootFind_any"); c.model("MCRootFind", "MCRootFind_big")
    r = c.rng
    hs = [{"ops": [model_case(r, o) for o in b]} for b in c.behaviours("MCRootFind", "MCRootFind_sim", c.pick(80, 800), 2) if b]
    hs += [{"ops": [case(r) for _ in range(6)]} for _ in range(c.pick(1500, 15000))]
    c.validate("TraceRootFind", "TraceRootFind", c.run_driver([sys.executable, vlib.VERIF + "/drivers/rootfind.py"], hs, "root", env={"VERIF_REPO": vlib.REPO}), "root finding")
    c.assumptions += ["the function returns real numbers; mpi.report is replaced by a no-op", "scipy.optimize.bisect is the installed one"]
    c.finish()
