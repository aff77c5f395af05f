"""Hamiltonians, observables and Coulomb tensors against their defining sums (Hamiltonians.tla)."""
import sys, itertools
import vlib
def z(r, real=False): return [r.randrange(-4, 5), 0 if real else r.choice([0, 0, r.randrange(-3, 4)])]
def shell(r, nmax, ns=None):
    n = r.randrange(1, nmax + 1)
    spins = r.choice([["up", "down"], ["dn", "up"], ["a", "b"]]) if ns == 2 or r.random() < 0.8 else r.choice([["s"], ["u", "v", "w"]])
    off = r.choice([True, False]); mp = None
    if r.random() < 0.3:
        off = r.choice([None, True, False])
        mp = [[s + "-" + str(i // 2), i % 2] if r.random() < 0.5 else ["g%d" % (k // 2), 7 * (k % 2) + (0 if s == spins[0] else 1)] for k, (s, i) in enumerate((s, i) for s in spins for i in range(n))]
        if len({tuple(x) for x in mp}) < len(mp): mp = [["m", k] for k in range(len(mp))]; r.shuffle(mp)
    return {"spins": spins, "n": n, "off": off, "map": mp}
def tensor(r, n, real):
    p = r.choice([0.2, 0.5, 1])
    return [[[[z(r, real) if r.random() < p else [0, 0] for _ in range(n)] for _ in range(n)] for _ in range(n)] for _ in range(n)]
def mat(r, n): return [[r.randrange(-5, 6) for _ in range(n)] for _ in range(n)]
def unitary(r, n):
    if n == 2 and r.random() < 0.0: pass
    p = list(range(n)); r.shuffle(p)
    return [[r.choice([[1, 0], [-1, 0], [0, 1], [0, -1]]) if p[i] == j else [0, 0] for j in range(n)] for i in range(n)]
def mono(r, sh):
    ms = [(s, i) for s in range(len(sh["spins"])) for i in range(sh["n"])]
    idx = lambda q: sh["map"][q[0] * sh["n"] + q[1]] if sh["map"] is not None else [sh["spins"][q[0]], q[1]] if sh["off"] else ["%s_%d" % (sh["spins"][q[0]], q[1]), 0]
    if r.random() < 0.5:
        k = r.sample(ms, min(len(ms), r.randrange(0, 4)))
        w = [[True, idx(q)] for q in k] + [[False, idx(q)] for q in r.sample(k, len(k))]
        if r.random() < 0.3: r.shuffle(w)
    else: w = [[r.random() < 0.5, idx(r.choice(ms))] for _ in range(r.randrange(1, 5))]
    return w
def case(r, thorough):
    op = r.choice(["slater", "slater", "kanamori", "kanamori", "density", "obs", "obs", "L", "diag", "real", "struct", "kanU", "reduce", "transform", "sub", "UJ", "slaterU"])
    o = {"op": op}
    if op == "slater":
        o.update(shell(r, 2)); o["cx"] = r.random() < 0.5; o["U"] = tensor(r, o["n"], not o["cx"] and r.random() < 0.8)
    if op in ("kanamori", "density"):
        o.update(shell(r, 3)); o["U"], o["Up"] = mat(r, o["n"]), mat(r, o["n"])
        if op == "kanamori":
            o["J"] = r.randrange(-3, 4)
            if r.random() < 0.5: U, J = r.randrange(1, 7), o["J"]; n = o["n"]; o["U"] = [[0 if a == b else U - 3 * J for a in range(n)] for b in range(n)]; o["Up"] = [[U if a == b else U - 2 * J for a in range(n)] for b in range(n)]
    if op in ("slater", "kanamori", "density"): o["dump"] = r.random() < 0.5; o["list"] = r.random() < 0.1
    if op == "obs":
        o["what"] = r.choice(["N", "S2", "x", "y", "z", "+", "-"]); o.update(shell(r, 3, None if o["what"] == "N" else 2))
        if o["what"] == "S2" and o["n"] == 3 and not thorough: o.update(shell(r, 2, 2))
    if op == "L":
        o.update(shell(r, 4), what=r.choice("xyz+-"), basis="spherical")
        if o["n"] == 3 and r.random() < 0.6: o["basis"] = "cubic"
    if op in ("diag", "real"):
        o.update(shell(r, 2)); o["t"] = [[mono(r, o)] + z(r, op == "real" and r.random() < 0.7) for _ in range(r.randrange(0, 6))]; o["tol"] = r.choice([0, 0, 1, 2])
    if op == "struct": o.update(shell(r, 4)); o["map"] = None; o["off"] = r.random() < 0.5; o["list"] = r.random() < 0.1
    if op == "kanU": o.update(n=r.randrange(1, 5), U=r.randrange(-3, 8), J=r.randrange(-2, 4), Up=r.choice([None, None, r.randrange(0, 5), 0]), Jc=r.choice([None, r.randrange(0, 4), 0]))
    if op == "reduce": n = r.randrange(1, 4); o.update(n=n, U=tensor(r, n, r.random() < 0.7))
    if op == "transform": n = r.randrange(1, 4 if thorough else 3); o.update(n=n, U=tensor(r, n, False), T=unitary(r, n))
    if op == "sub": o.update(which=r.choice(["t2g", "eg"]), n=5, rank=r.choice([2, 4]), conv=r.choice([None, "triqs", "vasp", "wien2k", "wannier90", "qe", "nope"]))
    if op == "UJ": l = r.randrange(1, 4); o.update(l=l, U=r.randrange(-3, 9), J=r.randrange(-1, 4), F=[r.randrange(0, 9) for _ in range(l + 1)])
    if op == "slaterU":
        l = r.randrange(1, 3) if r.random() < 0.8 or not thorough else 3
        o.update(l=l, F=[r.randrange(-3, 9) for _ in range(l + 1)])
        if l == 3: k = r.randrange(4); o["F"] = [r.randrange(1, 6) if i == k else 0 for i in range(4)]
    return o
def fixed(r, thorough):
    "tables: 3j symbols, Gaunt products, harmonics and the angular momentum algebra"
    ops = [{"op": "cubic", "l": l, "conv": c} for l in range(5) for c in (None, "triqs", "vasp", "wien2k", "wannier90", "qe", "nope")]
    ops += [{"op": "slaterU", "l": 3, "F": [int(i == k) for i in range(4)]} for k in range(4)] + [{"op": "slaterU", "l": 0, "F": [5]}]
    for n in (1, 2, 3, 4): 
        for b in ["spherical"] + (["cubic"] if n % 2 else []) + (["other"] if n == 3 else []): ops.append({"op": "algebra", "n": n, "spins": ["up", "down"], "off": bool(n % 2), "map": None, "basis": b})
    if thorough: ops += [{"op": "algebra", "n": 5, "spins": ["up", "down"], "off": True, "map": None, "basis": b} for b in ("spherical", "cubic", "other")]
    js = [(a, b, c) for a in range(4) for b in range(4) for c in range(7) if thorough or (a, b, c) in [(3, 3, 6), (3, 3, 4)] or r.random() < 0.35]
    for a, b, c in js:
        for m in range(-a, a + 1):
            for k in range(-b, b + 1):
                q = -m - k + (r.choice([1, -1]) if r.random() < 0.05 else 0)
                if r.random() < (1 if thorough else 0.5): ops.append({"op": "3j", "a": [a, m, b, k, c, q]})
    for l, k in [(1, 0), (1, 2), (2, 0), (2, 2), (2, 4), (3, 2), (3, 4), (3, 6)]:
        for m in itertools.product(range(-l, l + 1), repeat=4):
            dx = m[0] == m[2] and m[1] == m[3] or m[0] == m[3] and m[1] == m[2]
            if m[0] + m[1] != m[2] + m[3] and r.random() > 0.02: continue
            if not thorough and r.random() > (0.4 if l < 3 else 0.1): continue
            if dx or l < 3: ops.append({"op": "alpha", "a": [l, k] + list(m), "sq": l < 3, "rational": dx})
    return [{"ops": ops[i:i + 40]} for i in range(0, len(ops), 40)]
def extracts(r, count):
    import fermigen as g
    hs = []
    for i in range(count):
        ops = []
        for _ in range(4):
            gf = None
            if r.random() < 0.6:
                gf = [[b, r.randrange(0 if k else 1, 4)] for k, b in enumerate(r.sample(["up", "down", "a", "b1", ""], r.randrange(1, 4)))]
                ns = [[b, k] for b, s in gf for k in range(s)]
                n = len(ns)
            else:
                n = r.randrange(1, 6); ns = g.names(r, n)
            ts = []
            shape = r.choice(["h", "u2", "u4", "u4", "mix", "mix"])
            if gf: shape = r.choice(["h", "h", "block", "block", "mix", "u2"])
            for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
                a = lambda: r.randrange(1, n + 1)
                w = {"h": lambda: [a(), -a()], "u2": lambda: (lambda p, q: [p, -p, q, -q])(a(), a()), "u4": lambda: [a(), a(), -a(), -a()],
                     "block": lambda: (lambda b: [1 + ns.index([b[0], r.randrange(b[1])]), -1 - ns.index([b[0], r.randrange(b[1])])])(r.choice([b for b in gf if b[1]])),
                     "any": lambda: g.canonical(r, n, r.randrange(0, 5))}
                kind = shape if shape != "mix" else r.choice(["h", "u2", "u4", "any", "any"])
                if kind == "u2" and r.random() < 0.8 and n > 1: p, q = r.sample(range(1, n + 1), 2); w_ = [p, q, -q, -p]
                else: w_ = w[kind]()
                re, im = r.randrange(-4, 5), r.choice([0, 0, r.randrange(-3, 4)])
                ts.append([w_, re, im, r.random() < 0.7])
            fs = [k + 1 for k in range(n) if r.random() < 0.93]; r.shuffle(fs)
            o = {"scalar": r.choice(["double", "complex", "roc"]), "names": ns, "terms": ts, "ign": r.random() < 0.6, "k": r.randrange(0, 5), "fs": fs, "ranks": 7 if n < 4 else r.choice([3, 1, 2] + ([4] if n < 5 else []))}
            # blocks outside of the structure are not allowed
            if gf and o["scalar"] != "roc": o["gf"] = gf
            ops.append(o)
        hs.append({"ops": ops})
    return hs
def check(c):
    exe = c.build("extract", ["extract.cpp", "repo:operators/many_body_operator.cpp", "repo:hilbert_space/fundamental_operator_set.cpp", "repo:utility/stack_trace.cpp"])
    c.model("MCHamiltonians", "MCHamiltonians_big" if c.thorough else "MCHamiltonians")
    r = c.rng
    hs = fixed(r, c.thorough) + [{"ops": [case(r, c.thorough) for _ in range(6)]} for _ in range(c.pick(200, 1500))]
    c.validate("TraceHamiltonians", "TraceHamiltonians", c.run_driver([sys.executable, vlib.VERIF + "/drivers/hamilt.py"], hs, "ham", env={"VERIF_REPO": vlib.REPO}), "Hamiltonians and observables")
    c.validate("TraceExtract", "TraceExtract", c.run_driver([exe], extracts(r, c.pick(250, 3000)), "extract"), "coefficients of operators")
    c.assumptions += ["the many-body operators the helpers compute with are a Python stand-in with the algebra that C11 checks in C++"]
    c.finish()
