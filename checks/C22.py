from meshgen import LAT1, LAT2, LAT3
BAD = [[[1, 2], [2, 4]], [[0, 0], [1, 1]], [[1, 0, 1], [0, 1, 0], [1, 1, 1]], [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]]
def q(r): return r.choice([[0, 1], [1, 2], [1, 4], [-1, 2], [3, 4], [1, 1], [1, 3], [-2, 1]])
def lattice(r):
    n = r.choice([1, 1, 2, 2, 3])
    return {"u": r.choice(BAD) if r.random() < 0.08 else r.choice([LAT1, LAT2, LAT2, LAT3][r.randrange(4)]),
            "pos": [[q(r) for _ in range(3)] for _ in range(n)] if r.random() < 0.7 else [[[0, 1]] * 3] * n, "nm": [r.choice(["", "a", "b", "up", "dn"]) for _ in range(n)]}
def mat(r, n): return [[[r.randrange(-2, 3), r.choice([0, 0, 1, -1])] for _ in range(n)] for _ in range(n)]
def dag(m): return [[[m[b][a][0], -m[b][a][1]] for b in range(len(m))] for a in range(len(m))]
def hoppings(r, dim, n, breakit):
    ds = set()
    while len(ds) < r.randrange(1, 4):
        d = tuple(r.choice([-2, -1, 0, 0, 1, 1, 3]) if r.random() < 0.8 else r.randrange(-5, 6) for _ in range(dim))
        if tuple(-x for x in d) not in ds: ds.add(d)
    h = []
    for d in sorted(ds):
        m = mat(r, n)
        if not any(d):
            m = [[[m[a][b][0], 0] if a == b else m[min(a, b)][max(a, b)] if a < b else [m[b][a][0], -m[b][a][1]] for b in range(n)] for a in range(n)]
            h.append({"r": list(d), "m": m})
        else:
            h.append({"r": list(d), "m": m})
            h.append({"r": [-x for x in d], "m": dag(m)})
    r.shuffle(h)
    nm = len(h)
    if breakit:
        x = r.randrange(6)
        t = r.choice(h)
        if x == 0: h.remove(t); nm -= 1
        elif x == 1: a = r.randrange(n); b = r.randrange(n); t["m"] = [list(v) for v in t["m"]]; t["m"][a][b] = [t["m"][a][b][0], t["m"][a][b][1] + 1]
        elif x == 2: t["r"] = t["r"] + [0] if r.random() < 0.5 or dim == 1 else t["r"][:-1]
        elif x == 3: nm += 1
        elif x == 4: t["m"] = [list(v) + [[0, 0]] for v in t["m"]]
        else: t["m"] = t["m"] + [[[0, 0]] * n]
        if not h: return [], 0
    if not breakit and r.random() < 0.04: return [], 0
    return h, nm
def kv(r):
    x = r.random()
    if x < 0.15: return [0, 0, 0]
    if x < 0.5: return [r.choice([0, 6, 12, 18, 8]) for _ in range(3)]
    return [r.randrange(-30, 54) for _ in range(3)]
def momenta(r, dim, norb, op):
    via = r.choice(["one", "array", "stack", "path", "mesh", "n"] if op == "fourier" else ["one", "array", "path", "grid", "mesh", "n"])
    o = {"op": op, "via": via, "len": r.choice([dim, 3])}
    if via in ("one", "array", "stack"): o["ks"] = [kv(r) for _ in range(r.randrange(1, 7))]
    elif via == "path":
        n = r.randrange(1, 6)
        K1 = kv(r)
        o.update(K1=K1, K2=[a + n * r.randrange(-4, 5) for a in K1], n=n)
    elif via == "mesh": o["d"] = [r.choice([1, 2, 3, 4, 6] if dim == 1 or k == 0 else [1, 2, 3, 4] if dim == 2 else [1, 2, 3]) if k < dim else 1 for k in range(3)]
    elif via == "n": o["n"] = r.choice([1, 2, 3, 4, 6, 8] if dim == 1 else [1, 2, 3, 4] if dim == 2 else [1, 2, 3])
    else: o["n"] = r.choice([1, 2, 3, 4, 6] if dim == 1 else [1, 2, 3, 4] if dim == 2 else [1, 2])
    return o
def queries(r, ops, ls, j):
    o = ls[j]; b = o["b"]; dim = len(b["u"])
    x = r.random()
    if x < 0.25:
        xs = [[[r.randrange(-3, 4), 1] if r.random() < 0.5 else q(r) for _ in range(3)] for _ in range(3)]
        ops.append({"op": "conv", "j": j, "inv": r.random() < 0.5, "x": xs, "len": r.choice([dim, 3])})
    if o["t"] == "bl" and x < 0.5:
        ops.append({"op": "pt", "j": j, "a": [r.randrange(-4, 5) for _ in range(3)], "b": [r.randrange(-4, 5) for _ in range(3)], "warm": r.random() < 0.5})
    if o["t"] != "tb": return
    n = len(b["pos"])
    if x > 0.2: ops.append(dict(momenta(r, dim, n, "fourier"), j=j))
    if n <= 2 and x > 0.4: ops.append(dict(momenta(r, dim, n, "disp"), j=j))
    if x > 0.75: ops.append({"op": "dos", "j": j, "n": r.choice([1, 2, 3, 4, 6] if dim < 3 else [1, 2, 3]), "nb": r.randrange(2, 9)})
    if dim == 2 and n == 1 and r.random() < 0.5:
        m = r.choice([1, 1, 2, 2, 4])
        # all centres of the parts of the triangles are multiples of 1/24
        tri = [[3 * m * r.randrange(0, 9 if m == 1 else 5 if m == 2 else 3) for _ in range(2)] for _ in range(3 * r.randrange(1, 4))]
        area = lambda a, b, c: (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
        if all(area(*tri[3 * t:3 * t + 3]) for t in range(len(tri) // 3)): ops.append({"op": "patch", "j": j, "tri": tri, "n": m, "nb": r.randrange(2, 9)})
def accepted(h, nm, b):
    n = len(b["pos"])
    if nm != len(h): return False
    if any(len(t["r"]) != len(b["u"]) or len(t["m"]) != n or any(len(v) != n for v in t["m"]) for t in h): return False
    for t in h:
        o = [s for s in h if s["r"] == [-x for x in t["r"]]]
        if not o or any(t["m"] != dag(s["m"]) for s in o): return False
    return True
def history(r):
    ops, ls = [], {}
    for _ in range(r.randrange(6, 16)):
        x = r.random(); i = r.randrange(1, 7)
        bls = [k for k in ls if ls[k]["t"] == "bl"]
        if r.random() < 0.06:
            o = {"def": True, "op": r.choice(["bl", "bz"]), "id": i, "u": [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "pos": [[[0, 1]] * 3], "nm": [""]}
            ops.append(o); b = {k: o[k] for k in ("u", "pos", "nm")}
            ls[i] = {"t": "bl", "b": b} if o["op"] == "bl" else {"t": "bz", "b": b}
        elif x < 0.2 or not bls:
            b = lattice(r)
            if ls and r.random() < 0.4: b = dict(ls[r.choice(list(ls))]["b"], nm=b["nm"], pos=b["pos"])
            o = dict(b, op="bl", id=i)
            if r.random() < 0.2: o["nm"] = [""] * len(o["pos"]); o["defnames"] = True
            else: o["nm"] = [r.choice(["", "a", "b", "up"]) for _ in o["pos"]]
            ops.append(o)
            if b["u"] not in BAD: ls[i] = {"t": "bl", "b": {k: o[k] for k in ("u", "pos", "nm")}}
        elif x < 0.3:
            j = r.choice(bls)
            ops.append({"op": "bz", "id": i, "j": j}); ls[i] = {"t": "bz", "b": ls[j]["b"]}
        elif x < 0.65:
            j = r.choice(bls); b = ls[j]["b"]
            h, nm = hoppings(r, len(b["u"]), len(b["pos"]), r.random() < 0.25)
            tbs = [k for k in ls if ls[k]["t"] == "tb" and len(ls[k]["b"]["u"]) == len(b["u"]) and len(ls[k]["b"]["pos"]) == len(b["pos"])]
            if tbs and r.random() < 0.5:
                h = ls[r.choice(tbs)]["h"]; nm = len(h)
                x = r.random()
                if h and x < 0.4:   # the same displacements with other matrices, or another order
                    t = r.choice(h)
                    h = [dict(u, m=[[[2 * a, 2 * b] for a, b in v] for v in u["m"]]) if u["r"] == t["r"] or u["r"] == [-x for x in t["r"]] else u for u in h]
                elif x < 0.6: h = h[1:] + h[:1]
            ops.append({"op": "tb", "id": i, "j": j, "h": h, "nm": nm})
            if accepted(h, nm, b): ls[i] = {"t": "tb", "b": b, "h": h}
        elif x < 0.85:
            j = r.choice(list(ls))
            ops.append({"op": "copy", "id": i, "j": j, "how": r.randrange(4)}); ls[i] = ls[j]
        for _ in range(2): queries(r, ops, ls, r.choice(list(ls))) if ls else None
    for j in ls:
        for k in ls: ops.append({"op": "eq", "j": j, "k": k})
        queries(r, ops, ls, j)
    return {"ops": ops}
def from_model(r, beh):
    ops, ls = [], {}
    for o in beh:
        o = dict(o)
        i, j = o["id"], o.get("j")
        if o["op"] == "bl":
            if o["u"] not in BAD: ls[i] = {"t": "bl", "b": {k: o[k] for k in ("u", "pos", "nm")}}
        elif o["op"] == "bz": ls[i] = {"t": "bz", "b": ls[j]["b"]}
        elif o["op"] == "tb":
            if accepted(o["h"], o["nm"], ls[j]["b"]): ls[i] = {"t": "tb", "b": ls[j]["b"], "h": o["h"]}
        else: o["how"] = r.randrange(4); ls[i] = ls[j]
        ops.append(o)
        if ls: queries(r, ops, ls, r.choice(list(ls)))
    for j in ls:
        for k in ls: ops.append({"op": "eq", "j": j, "k": k})
    return {"ops": ops}
def check(c):
    exe = c.build("tbx", ["tbx.cpp", "repo:lattice/bravais_lattice.cpp", "repo:lattice/brillouin_zone.cpp", "repo:lattice/tight_binding.cpp"], flags=["-DFMT_HEADER_ONLY"])
    c.model("MCTightBinding", "MCTightBinding", timeout=600)
    if c.thorough: c.model("MCTightBinding", "MCTightBinding_big", timeout=600)
    r = c.rng
    hs = [from_model(r, b) for b in c.behaviours("MCTightBinding", "MCTightBinding_sim", c.pick(60, 400), 10)]
    hs += [history(r) for _ in range(c.pick(250, 3000))]
    c.validate("TraceTightBinding", "TraceTightBinding", c.run_driver([exe], hs, "tb"), "lattices and tight-binding models")
    c.assumptions += ["lattice vectors are small integers, hoppings Gaussian integers and momenta multiples of 1/24, so that every value is known; energies are compared for one and two bands",
                      "linear algebra, arrays and HDF5 are stand-ins (/verif/shim)"]
    c.finish()
