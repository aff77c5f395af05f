"""Super-lattices and the construction of lattice models (SuperLattice.tla)."""
import sys, itertools
import vlib
def det(U):
    d = len(U)
    if d == 1: return U[0][0]
    return sum((-1) ** c * U[0][c] * det([[U[r][q] for q in range(d) if q != c] for r in range(1, d)]) for c in range(d))
def conj(m): n = len(m); return [[[m[j][i][0], -m[j][i][1]] for j in range(n)] for i in range(n)]
def amp(r): return [r.randrange(-4, 5), r.choice([0, 0, r.randrange(-3, 4)])]
def matrix(r, n, p=0.6): return [[amp(r) if r.random() < p else [0, 0] for _ in range(n)] for _ in range(n)]
def hoppings(r, d, n, count, reach):
    h = {}
    for _ in range(count):
        x = tuple(r.randrange(-reach, reach + 1) for _ in range(d)); y = tuple(-k for k in x)
        if x in h: continue
        m = matrix(r, n)
        if x == y: m = [[[m[i][j][0] + m[j][i][0], m[i][j][1] - m[j][i][1]] for j in range(n)] for i in range(n)]
        h[x] = m; h[y] = conj(m)
    it = list(h.items()); r.shuffle(it)
    return [[list(k), m] for k, m in it]
def regular(r, d, vals):
    while True:
        U = [[r.choice(vals) for _ in range(d)] for _ in range(d)]
        if det(U): return U
def base(r, d=None, n=None, count=None):
    d = d or r.choice([1, 2, 2, 3]); n = n or r.choice([1, 1, 2, 3])
    return {"units": regular(r, d, [0, 0, 1, 2, 3, -1, -2]), "hop": hoppings(r, d, n, r.randrange(1, 4) if count is None else count, 2), "pos": [[r.randrange(-3, 4) for _ in range(3)] for _ in range(n)], "names": r.choice([[chr(97 + k) for k in range(n)], [""] * n])}
def inside(U, x):
    d = len(U); D = det(U); s = 1 if D > 0 else -1
    for c in range(d):
        V = [list(row) for row in U]; V[c] = list(x)
        if not 0 <= s * det(V) < abs(D): return False
    return True
def sites(U):
    d = len(U); a = max(sum(abs(U[r][c]) for r in range(d)) for c in range(d))
    return [list(x) for x in itertools.product(range(-a, a + 1), repeat=d) if inside(U, x)]
def super_(r, d, left):
    while True:
        U = [[r.choice([-2, -1, 0, 0, 1, 1, 2, 3]) for _ in range(d)] for _ in range(d)]
        if r.random() < 0.3: U = [[r.choice([1, 2, 3]) if a == b else 0 for b in range(d)] for a in range(d)]
        D = abs(det(U))
        if D <= left and (D or r.random() < 0.2): break
    cs = None
    if D and r.random() < 0.4:
        cs = sites(U); r.shuffle(cs)
        if r.random() < 0.15:
            k = r.randrange(len(cs))
            w = r.randrange(3)
            if w == 0: cs = cs[:k] + cs[k + 1:] if len(cs) > 1 else cs + cs
            elif w == 1: cs = cs + [cs[k]]
            else: cs[k] = [x + 7 * U[0][c] for c, x in enumerate(cs[k])]
    return finish(r, U, cs)
def finish(r, U, cs):
    d = len(U)
    return {"U": U, "sites": cs, "kind": r.choice(["list", "tuple", "array", "tuples"]), "array": r.random() < 0.5, "remove": r.random() < 0.35,
            "points": [[r.randrange(-7, 8) for _ in range(d)] for _ in range(6)], "K": [[r.randrange(0, 8), 8] for _ in range(d)],
            "fold": [], "cz": r.random() < 0.5, "frem": r.random() < 0.3}
def tower(r, big):
    b = base(r); d = len(b["units"]); n = len(b["pos"]); left = {1: 8, 2: 6, 3: 6}[d] if not big else 12
    b.update(op="tower", supers=[], k=r.random() < 0.5)
    size = n
    for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
        s = super_(r, d, max(1, left)); D = abs(det(s["U"]))
        if size * max(D, 1) > (12 if not big else 20): continue
        if r.random() < 0.5: s["fold"] = [[[r.randrange(-2, 3) for _ in range(d)], [[r.randrange(-5, 6) for _ in range(size)] for _ in range(size)]] for _ in range(r.randrange(1, 4))]
        b["supers"].append(s); left //= max(1, D)
        if D and (s["sites"] is None or sorted(map(tuple, s["sites"])) == sorted(map(tuple, sites(s["U"])))): size *= D
    return b
def case(r, big):
    op = r.choice(["tower"] * 8 + ["copy", "dict", "path", "path", "w90", "w90", "pythtb", "patch", "point", "dos"])
    if op == "tower": return tower(r, big)
    if op == "copy":
        b = base(r, count=2); U = regular(r, len(b["units"]), [1, 2, 1, 0, -1])
        while abs(det(U)) > 6: U = regular(r, len(b["units"]), [1, 2, 1, 0, -1])
        cs = sites(U); r.shuffle(cs)
        b.update(op="copy", U=U, sites=r.choice([None, cs]), remove=r.random() < 0.5, how=r.choice(["copy", "pickle"])); return b
    if op == "dict":
        b = base(r); o = r.choice([None, b, None, base(r, len(b["units"]), len(b["pos"])), base(r)])
        b = dict(b)
        if r.random() < 0.3: o = dict(b); o["hop"] = b["hop"][:]; o["pos"] = [[7, 7, 7]] * len(b["pos"])
        if r.random() < 0.3: o = dict(b); o["hop"] = [[k, [[[x[0] + (i == j and not any(k)), x[1]] for j, x in enumerate(row)] for i, row in enumerate(m)]] for k, m in b["hop"]]
        b.update(op="dict", other=o, n=r.choice([4, [2, 3, 4]])); return b
    if op == "path":
        # lengths are rational
        v = lambda: r.choice([[1, 0, 0], [0, -2, 0], [0, 0, 3], [3, 4, 0], [0, -6, 8], [1, 2, 2], [0, 0, 0], [2, -3, 6]])
        seg = []
        cell = r.choice([None, None, [[2, 0, 0], [0, 2, 0], [0, 0, 2]], [[0, 1, 0], [1, 0, 0], [0, 0, -1]], [[1, 2, 2], [2, 1, -2], [2, -2, 1]]])
        for _ in range(r.randrange(1, 4)):
            a = [r.randrange(-3, 4) for _ in range(3)]; seg.append([a, [x + y for x, y in zip(a, v())]])
        return {"op": "path", "seg": seg, "num": r.choice([1, 2, 3, 5, 6, 9]), "cell": cell, "rel": r.random() < 0.6, "mix": r.random() < 0.5}
    if op == "w90":
        n = r.randrange(1, 4); h = hoppings(r, 3, n, r.choice([1, 2, 3, 9]), 2); d = {tuple(k): m for k, m in h}
        z = matrix(r, n); d[(0, 0, 0)] = [[[z[i][j][0] + z[j][i][0], z[i][j][1] - z[j][i][1]] for j in range(n)] for i in range(n)]
        R = [list(k) for k in d]; r.shuffle(R); deg = {}
        for k in R:
            deg.setdefault(tuple(k), r.choice([1, 1, 2, 3, 4])); deg[tuple(-x for x in k)] = deg[tuple(k)]
        spin = r.random() < 0.4; nn = n * (2 if spin else 1); add = None
        if r.random() < 0.5: m = matrix(r, nn); add = [[[m[i][j][0] + m[j][i][0], m[i][j][1] - m[j][i][1]] for j in range(nn)] for i in range(nn)]
        return {"op": "w90", "n": n, "R": R, "deg": [deg[tuple(k)] for k in R], "H": [d[tuple(k)] for k in R], "unit": r.choice(["Ang", "Bohr", "Ang", "Ang", "Foo"]), "units": regular(r, 3, [0, 1, 2, -1, 3]), "spin": spin, "add": add or [], "hasadd": add is not None}
    if op == "pythtb":
        n = r.randrange(1, 4); hs = []
        for _ in range(r.randrange(0, 6)):
            a, b, R = r.randrange(n), r.randrange(n), r.choice([[0, 0, 0], [1, 0, 0], [-1, 0, 0], [0, 1, 1], [2, -1, 0]])
            if not any(R) and a == b: continue
            hs.append([amp(r), a, b, R])
        return {"op": "pythtb", "n": n, "site": [r.randrange(-4, 5) for _ in range(n)], "h": hs, "units": regular(r, 3, [0, 1, 2, -1]), "orb": [[r.randrange(3) for _ in range(3)] for _ in range(n)]}
    if op == "patch":
        cv = [[[0, 0], [4, 0], [4, 4], [0, 4]], [[0, 0], [3, 0], [1, 5]], [[1, 1], [3, 0], [5, 2], [4, 5], [0, 4]], [[0, 0], [0, 3], [2, 1]], [[2, 0], [4, 1], [5, 3], [4, 5], [2, 6], [0, 3]]]
        ps = [[[x + dx, y] for x, y in p] for p, dx in ((r.choice(cv), 10 * k) for k in range(r.randrange(1, 4)))]
        for p in ps:
            k = r.randrange(len(p)); p[:] = p[k:] + p[:k]
        return {"op": "patch", "poly": ps}
    if op == "point":
        d = r.randrange(1, 4); v = lambda k: [r.randrange(-5, 6) for _ in range(k)]
        return {"op": "point", "units": regular(r, d, [0, 1, 2, -1, 3]), "a": v(d), "b": v(d), "s": r.randrange(-4, 5), "v": v(3)}
    return {"op": "dos", "n": r.randrange(1, 4), "nk": r.randrange(1, 9)}
def behaviour(r, steps, d):
    hop = {}; sup = []
    for s in steps:
        if "hop" in s:
            k = tuple(s["hop"]); m = s["m"]; hop[k] = m; hop[tuple(-x for x in k)] = conj(m)
        else: sup.append(finish(r, s["super"], None))
    if not hop: return None
    n = len(next(iter(hop.values())))
    b = base(r, d, n, 0); b.update(op="tower", hop=[[list(k), m] for k, m in hop.items()], supers=sup, k=True)
    return b
def check(c):
    for cfg in ["MCSuperLattice", "MCSuperLattice_d1"] + (["MCSuperLattice_big"] if c.thorough else []): c.model("MCSuperLattice", cfg)
    r = c.rng
    hs = [{"ops": [case(r, c.thorough) for _ in range(4)]} for _ in range(c.pick(160, 1500))]
    b = [behaviour(r, s, 2) for s in c.behaviours("MCSuperLattice", "MCSuperLattice_sim", c.pick(60, 400), 6)]
    b = [x for x in b if x]
    hs += [{"ops": b[k:k + 6]} for k in range(0, len(b), 6)]
    c.validate("TraceSuperLattice", "TraceSuperLattice", c.run_driver([sys.executable, vlib.VERIF + "/drivers/superlat.py"], hs, "superlat", env={"VERIF_REPO": vlib.REPO}), "super-lattices")
    c.assumptions += ["BravaisLattice, BrillouinZone and TightBinding are Python stand-ins with the behaviour that C22 checks in C++"]
    c.finish()
