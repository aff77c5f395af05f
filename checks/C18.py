def frac(r, a, b, n, step):
    """a value: exactly on a mesh point, on a tie where the arithmetic is exact, in between, or outside"""
    (ap, aq), (bp, bq) = a, b
    x = r.random()
    if x < 0.1: return a
    if x < 0.2: return b
    if x < 0.26: return [ap * 8 - aq, aq * 8] if r.random() < 0.5 else [bp * 8 + bq, bq * 8]
    if x < 0.3: return [ap - 50 * aq, aq] if r.random() < 0.5 else [bp + 50 * bq, bq]
    # in units of step/8 from a; ties are at 4, 12, ... (odd multiples of half a step)
    m = 8 * max(n - 1, 1)
    u = r.randrange(0, m + 1)
    if not step and u % 8 == 4: u += 1
    p, q = ap * bq * m + (bp * aq - ap * bq) * u, aq * bq * m
    return [p, q]

LIM = [([0, 1], [4, 1]), ([0, 1], [1, 1]), ([-2, 1], [2, 1]), ([1, 2], [5, 2]), ([-1, 4], [3, 4]), ([0, 1], [10, 1]), ([-3, 1], [7, 1]), ([5, 1], [6, 1])]

def history(r):
    ops, ids = [], {}
    shapes = []
    for _ in range(2):
        a, b = r.choice(LIM); n = r.choice([1, 2, 2, 3, 4, 5, 6, 9, 11])
        shapes.append((a, b, n))
    def new(i):
        y = r.random()
        if y < 0.12:
            a = [r.randrange(-3, 3), 1]; b = [r.randrange(a[0] - 1, a[0] + 6), 1]
            n = b[0] - a[0] + 1
            ops.append({"op": "new", "id": i, "ints": True, "a": a, "b": b, "n": n, "obs": b[0] > a[0]})
        elif y < 0.18:
            a, b = r.choice(LIM); a, b = r.choice([(b, a), (a, a)]); n = 3
            ops.append({"op": "new", "id": i, "a": a, "b": b, "n": n})
        else:
            a, b, n = r.choice(shapes)
            ops.append({"op": "new", "id": i, "a": a, "b": b, "n": n, "obs": True})
        if a[0] * b[1] < b[0] * a[1]: ids[i] = [a, b, n, 0, True]
    while not ids: new(1)
    for _ in range(r.randrange(10, 60)):
        i = r.choice(list(ids)); d = ids[i]; x = r.random()
        if x < 0.6:
            a, b, n = d[:3]
            w = (b[0] * a[1] - a[0] * b[1]) ; den = a[1] * b[1]
            # is the step a dyadic number: ties are then exact
            k = max(n - 1, 1)
            exact = (w % k == 0) or k in (1, 2, 4, 8)
            v = "nan inf -inf".split()[r.randrange(3)] if r.random() < 0.08 else frac(r, a, b, n, exact)
            if not d[4]: continue
            ops.append({"op": "add", "id": i, "x": v, "obs": r.random() < 0.3})
            if not isinstance(v, str) and a[0] * v[1] <= v[0] * a[1] and v[0] * b[1] <= b[0] * v[1]: d[3] += 1
        elif x < 0.68: new(r.randrange(1, 5))
        elif x < 0.76:
            j, k = r.choice(list(ids)), r.choice(list(ids)); o = r.randrange(1, 5)
            if not (ids[j][4] and ids[k][4]): continue
            ok = ids[j][:3] == ids[k][:3]
            ops.append({"op": "sum", "id": o, "j": j, "k": k, "obs": ok})
            if ok: ids[o] = ids[j][:3] + [ids[j][3] + ids[k][3], True]
        elif x < 0.82:
            if d[3] == 0 or not d[4]: continue
            o = r.randrange(1, 5)
            ops.append({"op": r.choice(["pdf", "cdf"]), "id": o, "j": i, "obs": True}); ids[o] = d[:4] + [False]
        elif x < 0.84: ops.append({"op": "clear", "id": i, "obs": True}); d[3] = 0; d[4] = True
        elif x < 0.9:
            o = r.randrange(1, 5)
            ops.append({"op": r.choice(["copy", "h5"]), "id": o, "j": i, "how": r.randrange(2), "obs": True}); ids[o] = list(d)
        elif x < 0.94:
            j = r.choice(list(ids))
            if d[4] and ids[j][4]: ops.append({"op": "eq", "j": i, "k": j})
        else:
            same = [k for k in ids if ids[k][:3] == d[:3] and ids[k][4]]
            if not d[4]: continue
            v = [r.choice(same) for _ in range(r.randrange(1, 5))]
            if r.random() < 0.7: ops.append({"op": "reduce", "v": v, "all": r.random() < 0.5, "root": r.randrange(len(v))})
            else: ops.append({"op": "bcast", "v": [r.choice([k for k in ids]) for _ in v], "all": False, "root": r.randrange(len(v))})
    for i in ids: ops.append({"op": "obs", "id": i})
    return {"kind": "hist", "ops": ops}

def from_model(b):
    ops = [{"op": "new", "id": 1, "a": [0, 1], "b": [2, 1], "n": 3, "obs": True}]
    for k, o in enumerate(b): ops.append(dict(o, obs=True, how=k % 2))
    return {"kind": "hist", "ops": ops}

def check(c):
    exe = c.build("statx", ["statx.cpp", "repo:stat/histograms.cpp"])
    c.model("MCHistogram", "MCHistogram")
    c.model("MCHistogram", "MCHistogram2")
    hs = [from_model(b) for b in c.behaviours("MCHistogram", "MCHistogram_sim", num=c.pick(40, 600), depth=40)]
    hs += [history(c.rng) for _ in range(c.pick(400, 8000))]
    c.validate("TraceHistogram", "TraceHistogram", c.run_driver([exe], hs, "hist"), "histograms")
