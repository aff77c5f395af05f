from fractions import Fraction as F
from itertools import product
from math import gcd

def rat(x): return [F(x).numerator, F(x).denominator]
def beta(r): return r.choice([[1, 1], [2, 1], [5, 1], [10, 1], [5, 2], [1, 2], [4, 3]])
def stat(r): return r.choice("FB")

LAT1 = [[[1]], [[2]]]
LAT2 = [[[1, 0], [0, 1]], [[2, 1], [1, 2]], [[2, -1], [1, 2]], [[1, 0], [1, 1]], [[2, 0], [0, 1]], [[2, 1], [0, 2]], [[1, 2], [-1, 1]]]
LAT3 = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]], [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], [[1, 0, 0], [0, 2, 0], [0, 0, 1]],
        [[1, 0, 0], [1, 1, 0], [0, 0, 2]]]
def lattice(r): return r.choice([LAT1, LAT2, LAT2, LAT3, LAT3])
def periodic(r, t, small=False):
    u = r.choice(lattice(r))
    d = [1, 1, 1]
    how = r.choice(["", "", "", "n", "pm"]) if t == "brzone" else r.choice(["", "", "n", "pm", "cubic"])
    top = 3 if small else 5
    if how == "cubic": u = LAT3[0]
    for k in range(len(u)): d[k] = r.randrange(1, top)
    if how == "n": d = [d[0] if k < len(u) else 1 for k in range(3)]
    return {"t": t, "u": u, "d": d, "how": how}
def mesh(r, t, small=False, minlin=1):
    if t == "imfreq": return {"t": t, "beta": beta(r), "s": stat(r), "n": r.randrange(1, 4 if small else 7), "pos": r.random() < 0.3}
    if t == "imtime": return {"t": t, "beta": beta(r), "s": stat(r), "n": r.randrange(max(1, minlin), 5 if small else 10)}
    if t == "legendre": return {"t": t, "beta": beta(r), "s": stat(r), "n": r.randrange(1, 4 if small else 7)}
    if t in ("retime", "refreq"):
        q = r.choice([1, 2, 4])
        a = F(r.randrange(-12, 8), q)
        b = a + F(r.randrange(1, 17), q)
        return {"t": t, "a": rat(a), "b": rat(b), "n": r.randrange(max(1, minlin), 5 if small else 10), "win": r.random() < 0.4}
    if t == "discrete": return {"t": t, "n": r.randrange(1, 4 if small else 8)}
    return periodic(r, t, small)
SINGLE = ["imfreq", "imtime", "retime", "refreq", "legendre", "discrete", "cyclat", "brzone"]
PRODS = [["imfreq", "imtime"], ["brzone", "imfreq"], ["imfreq", "cyclat", "discrete"], ["legendre", "brzone"], ["imtime", "imtime"], ["cyclat", "retime"]]

def size(p):
    if p["t"] in ("brzone", "cyclat"): return p["d"][0] * p["d"][1] * p["d"][2]
    if p["t"] == "imfreq" and not p["pos"]: return 2 * p["n"] - (p["s"] == "B")
    return p["n"]
def first(p): return 0 if p["t"] != "imfreq" or p["pos"] else (-p["n"] if p["s"] == "F" else 1 - p["n"])
def index(r, p, slack):
    if p["t"] in ("brzone", "cyclat"): return [r.randrange(-slack, d + slack) for d in p["d"]]
    return [r.randrange(first(p) - slack, p["n"] + slack)]

# ---- closest points of a Brillouin zone, by exhaustive search
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def rows(u):
    n = len(u)
    return [[u[k][i] if i < n else 0 for i in range(3)] if k < n else [int(i == k) for i in range(3)] for k in range(3)]
def near(p, x):
    """minimal distance, all minimisers near the floor; None if the window of the specification is too small or numbers too big"""
    U = rows(p["u"]); n = len(p["u"])
    det = dot(U[0], cross(U[1], U[2]))
    dual = [cross(U[(k + 1) % 3], U[(k + 2) % 3]) for k in range(3)]
    w = [dot(x, U[k]) * p["d"][k] for k in range(3)]
    f = [v.numerator // v.denominator for v in w]
    win = (-1, 2) if n == 3 else (-3, 4)
    def lcm(a, b): return a // gcd(a, b) * b
    D = lcm(lcm(w[0].denominator, w[1].denominator), w[2].denominator)
    L = lcm(lcm(*p["d"][:2]), p["d"][2])
    best, arg, big = None, [], 0
    wide = 6 if n == 3 else 9
    for t in product(*[range(-wide, wide + 1) if k < n else (0,) for k in range(3)]):
        c = [int((w[i] - f[i] - t[i]) * D) * (L // p["d"][i]) for i in range(3)]
        v = [sum(c[k] * dual[k][i] for k in range(n)) for i in range(3)]
        d = dot(v, v)
        if all(win[0] <= t[k] <= win[1] for k in range(n)): big = max(big, sum(abs(c[a] * c[b] * dot(dual[a], dual[b])) for a in range(n) for b in range(n)))
        if best is None or d < best: best, arg = d, []
        if d == best: arg.append(t)
    if big > 2 ** 30: return None
    if not all(win[0] <= t[k] <= win[1] for t in arg for k in range(n)): return None
    return {tuple((f[i] + t[i]) % p["d"][i] for i in range(3)) for t in arg}
def kpoint(r, p):
    n = len(p["u"])
    U = rows(p["u"])
    det = dot(U[0], cross(U[1], U[2]))
    dual = [[F(x, det) for x in cross(U[(k + 1) % 3], U[(k + 2) % 3])] for k in range(3)]
    q = r.choice([1, 2, 3, 4, 5, 8])
    c = [F(r.randrange(-3 * q * d, 3 * q * d + 1), q * d) if k < n else F(0) for k, d in enumerate(p["d"])]
    return [sum(c[k] * dual[k][i] for k in range(n)) for i in range(3)]
def value(r, p):
    """a value argument inside the mesh"""
    t = p["t"]
    if t == "imfreq": return ["val", r.randrange(first(p), p["n"])]
    if t == "cyclat": return ["val", [r.randrange(-2 * d, 3 * d) if k < len(p["u"]) else 0 for k, d in enumerate(p["d"])]]
    if t == "brzone": return ["val", [rat(x) for x in kpoint(r, p)]]
    if t == "legendre": return ["val", rat(F(r.randrange(0, 5), 4))]
    if t == "discrete": return None
    return ["val", linear(r, p)] if p["n"] > 1 else None
def bounds(p): return (F(0), F(*p["beta"])) if p["t"] == "imtime" else (F(*p["a"]), F(*p["b"]))
def linear(r, p, edge=False):
    lo, hi = bounds(p)
    q = r.choice([1, 2, 3, 4, 5]) * max(1, p["n"] - 1)
    k = r.choice([0, q, r.randrange(0, q + 1), r.randrange(0, q + 1)])
    return rat(lo + (hi - lo) * F(k, q))
def close(r, p, unique):
    if p["t"] != "brzone" and p["n"] == 1 and r.random() < 0.7: return None
    for _ in range(20):
        if p["t"] == "brzone":
            x = kpoint(r, p)
            s = near(p, x)
            if s is None or (unique and len(s) > 1): continue
            return ["close", [rat(v) for v in x]]
        x = linear(r, p)
        if p["n"] > 1 and unique:
            lo, hi = bounds(p)
            w = (F(*x) - lo) / (hi - lo) * (p["n"] - 1)
            if (w * 2).denominator == 1 and w.denominator == 2: continue
        return ["close", x]
    return None
def arg(r, p, ms):
    x = r.random()
    a = None
    if x < 0.1 and p["t"] not in ("legendre", "discrete"):
        lin = "n" in p and p["t"] != "imfreq"
        def fits(q):
            if isinstance(q, list) or q["t"] != p["t"]: return False
            if p["t"] == "imfreq": return q["s"] == p["s"] and q["beta"] == p["beta"] and first(q) >= first(p) and q["n"] <= p["n"]
            if lin: return p["n"] > 1 and bounds(q)[0] >= bounds(p)[0] and bounds(q)[1] <= bounds(p)[1]
            return q["u"] == p["u"]
        j = r.choice([k for k in ms if fits(ms[k])] or [0])
        if j: return ["of", j, r.randrange(size(ms[j]))]
    if x < 0.55: a = value(r, p)
    elif x < 0.75 and p["t"] in ("brzone", "imtime", "retime", "refreq"): a = close(r, p, True)
    if a is None:
        if r.random() < 0.5 and not (p["t"] in ("imtime", "retime", "refreq") and p["n"] == 1): return ["pt", r.randrange(size(p))]
        return ["idx", index(r, p, 0)]
    return a
def evals(r, ms, i):
    fs = ms[i] if isinstance(ms[i], list) else [ms[i]]
    if len(fs) > 2: return []
    n = 1
    for p in fs: n *= size(p)
    f = [r.randrange(-9, 10) for _ in range(n)]
    return [{"op": "eval", "id": i, "f": f, "x": [arg(r, p, ms) for p in fs]} for _ in range(3)]
