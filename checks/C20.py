from meshgen import *

def variant(r, p):
    """a copy of p with one parameter changed, or permuted dimensions"""
    p = dict(p)
    x = r.random()
    if "n" in p and x < 0.3: p["n"] += 1
    elif "beta" in p and x < 0.6: p["beta"] = beta(r)
    elif "s" in p: p["s"] = stat(r)
    elif "a" in p and x < 0.7: p["b"] = rat(F(*p["b"]) + 1)
    elif "d" in p:
        p["how"] = ""
        p["d"] = list(p["d"])
        n = len(p["u"])
        if x < 0.4 and n > 1:
            i, j = r.sample(range(n), 2)
            p["d"][i], p["d"][j] = p["d"][j], p["d"][i]
        elif x < 0.6 and n > 1:
            i, j = r.sample(range(n), 2)
            if p["d"][i] > 1: p["d"][i] -= 1; p["d"][j] += 1
        elif x < 0.8: p["u"] = r.choice([u for u in LAT1 + LAT2 + LAT3 if len(u) == n])
    return p
def history(r):
    ops, ms, nid = [], {}, 0
    def put(o, i, p):
        o["obs"] = True
        ops.append(o)
        ms[i] = p
    kinds = r.sample(SINGLE, 2)
    pr = r.choice(PRODS)
    for i in range(r.randrange(3, 6)):
        t = r.choice(kinds)
        p = mesh(r, t)
        if i and r.random() < 0.6:
            j = r.choice([k for k in ms])
            if not isinstance(ms[j], list): p = variant(r, ms[j]) if r.random() < 0.7 else dict(ms[j])
        put({"op": "new", "id": i + 1, "p": p}, i + 1, p)
    if r.random() < 0.6:
        for v in range(2):
            for k, t in enumerate(pr):
                p = mesh(r, t, True)
                if v and r.random() < 0.6: p = variant(r, ms[10 + k]) if r.random() < 0.5 else dict(ms[10 + k])
                put({"op": "new", "id": 10 + 10 * v + k, "p": p}, 10 + 10 * v + k, p)
            ids = [10 + 10 * v + k for k in range(len(pr))]
            put({"op": "prod", "id": 30 + v, "a": ids, "how": r.randrange(4)}, 30 + v, [ms[k] for k in ids])
    for _ in range(r.randrange(4, 12)):
        x = r.random(); j = r.choice(list(ms)); i = r.choice(list(ms) + [40, 41])
        if x < 0.25: put({"op": "copy", "id": i, "j": j, "how": r.randrange(2)}, i, ms[j])
        elif x < 0.5: put({"op": "h5", "id": i, "j": j, "k": r.choice(list(ms)), "how": r.randrange(2)}, i, ms[j])
        elif x < 0.55:
            c = [k for k in ms if not isinstance(ms[k], list) and ms[k]["t"] == "imfreq"]
            if c:
                j = r.choice(c)
                put({"op": "pos", "id": i, "j": j}, i, dict(ms[j], pos=True))
        elif x < 0.8:
            fs = ms[j] if isinstance(ms[j], list) else [ms[j]]
            xs = []
            for _ in range(6):
                sl = [r.choice([0, 0, 1, 2]) for _ in fs]
                xs.append(sum((index(r, p, s) for p, s in zip(fs, sl)), []))
            ops.append({"op": "valid", "id": j, "x": xs})
        else:
            p, i = ms[j], r.randrange(50, 53)
            if not isinstance(p, list): put({"op": "new", "id": i, "p": p}, i, p)
    for j in ms:
        for k in ms: ops.append({"op": "eq", "j": j, "k": k})
    for j in ms: ops.append({"op": "obs", "id": j})
    return {"vals": False, "ops": ops}
def from_model(r, b):
    ops = []
    for o in b:
        o = dict(o, how=r.randrange(4) if o["op"] == "prod" else r.randrange(2))
        if o["op"] != "eq": o["obs"] = True
        if o["op"] == "new": o["p"] = dict(o["p"], how="", win=False)
        if o["op"] == "copy" and r.random() < 0.5: o.update(op="h5", k=o["j"])
        ops.append(o)
    return {"vals": False, "ops": ops}
SRC = ["meshx.cpp", "repo:lattice/bravais_lattice.cpp", "repo:lattice/brillouin_zone.cpp", "repo:utility/legendre.cpp"]
def check(c):
    exe = c.build("meshx", SRC)
    c.model("MCMesh", "MCMesh")
    if c.thorough: c.model("MCMesh", "MCMesh_big")
    hs = [from_model(c.rng, b) for b in c.behaviours("MCMesh", "MCMesh_sim", num=c.pick(40, 500), depth=16)]
    hs += [history(c.rng) for _ in range(c.pick(150, 3000))]
    c.validate("TraceMesh", "TraceMesh", c.run_driver([exe], hs, "mesh"), "meshes")
