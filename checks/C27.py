import sys
import vlib
BETAS = [[1, 1], [5, 2], [10, 1], [1, 2], [40, 1]]
def z(r, real): return [[r.randrange(-6, 7), 1] if r.random() < 0.6 else r.choice([[1, 2], [-3, 2], [1, 4]]), [0, 1] if real else r.choice([[1, 1], [-2, 1], [1, 2], [3, 1]])]
def zero(a, fr): return (2 * fr[a["id"]][0] + (fr[a["id"]][1] == "F") == 0) if a["t"] == "f" else a["z"][0][0] == 0 and a["z"][1][0] == 0
def value(f): return 2 * f[0] + (f[1] == "F")
def freq(v, b): return (v // 2, "F" if v % 2 else "B", b)
def apply(o, fr):
    if o["op"] == "new": fr[o["id"]] = (o["n"], o["s"], tuple(o["b"]))
    elif o["op"] in ("add", "sub"):
        f, g = fr[o["j"]], fr[o["k"]]
        if f[2] == g[2]: fr[o["id"]] = freq(value(f) + (value(g) if o["op"] == "add" else -value(g)), f[2])
    elif o["op"] == "neg": fr[o["id"]] = freq(-value(fr[o["j"]]), fr[o["j"]][2])
def query(r, fr):
    j = r.choice(list(fr)); f = fr[j]; x = r.random()
    if abs(value(f)) > 400: return None
    if x < 0.55:
        a, c = {"t": "f", "id": j}, None
        same = [k for k in fr if fr[k][2] == f[2] and abs(value(fr[k])) < 400]
        op = r.choice("+-*/")
        if r.random() < 0.45: c = {"t": "f", "id": r.choice(same)}
        else:
            real = r.random() < 0.5
            c = {"t": "r" if real else "c", "z": z(r, real)}
        # sums and differences of two frequencies are frequencies
        if c["t"] == "f" and op in "+-": op = r.choice("*/")
        if r.random() < 0.5: a, c = c, a
        if op == "/" and zero(c, fr): op = "*"
        return {"op": "op", "o": op, "j": j, "x": a, "y": c}
    if x < 0.65: return {"op": "abs", "j": j}
    if x < 0.75: return {"op": "pow", "j": j, "p": r.choice([0, 1, 2] + ([-1] if value(f) else []))}
    if x < 0.85: return {"op": "kron", "j": j, "k": r.choice(list(fr))}
    return {"op": "mesh", "j": j, "N": max(1, abs(f[0]) + r.randrange(-2, 3)), "pos": r.random() < 0.4}
def decorate(r, b):
    ops, fr = [], {}
    for o in b:
        o = dict(o, how=r.randrange(4) if o["op"] == "new" else r.randrange(2))
        ops.append(o); apply(o, fr)
        for _ in range(2):
            q = query(r, fr)
            if q: ops.append(q)
    return {"ops": ops}
def history(r):
    ops, fr = [], {}
    bs = r.sample(BETAS, 2)
    for _ in range(r.randrange(5, 25)):
        x = r.random(); i = r.randrange(1, 6)
        if x < 0.35 or not fr: o = {"op": "new", "id": i, "n": r.choice([0, 0, -1, 1, r.randrange(-40, 41)]), "s": r.choice("FB"), "b": bs[0] if r.random() < 0.8 else bs[1]}
        elif x < 0.9: o = {"op": r.choice(["add", "sub"]), "id": i, "j": r.choice(list(fr)), "k": r.choice(list(fr))}
        else: o = {"op": "neg", "id": i, "j": r.choice(list(fr))}
        if o["op"] in ("add", "sub") and abs(value(fr[o["j"]])) + abs(value(fr[o["k"]])) > 10000: continue
        ops.append(o); apply(o, fr)
    return decorate(r, ops)
def check(c):
    exe = c.build("matsub", ["matsub.cpp", "repo:utility/legendre.cpp"])
    c.model("MCMatsubara", "MCMatsubara_big" if c.thorough else "MCMatsubara")
    r = c.rng
    hs = [decorate(r, b) for b in c.behaviours("MCMatsubara", "MCMatsubara_sim", c.pick(100, 600), 14)]
    hs += [history(r) for _ in range(c.pick(400, 4000))]
    c.validate("TraceMatsubara", "TraceMatsubara", c.run_driver([exe], hs, "cpp"), "Matsubara frequencies in C++")
    c.validate("TraceMatsubara", "TraceMatsubara", c.run_driver([sys.executable, vlib.VERIF + "/drivers/matsub.py"], hs, "py", env={"VERIF_REPO": vlib.REPO}), "Matsubara frequencies in Python")
    c.assumptions += ["in C++, frequencies of different temperatures are not added (a precondition there; in Python this is refused)"]
    c.finish()
