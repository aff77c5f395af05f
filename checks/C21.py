from meshgen import *
from C20 import SRC

def history(r):
    ops, ms = [], {}
    kinds = r.sample([t for t in SINGLE if t != "discrete"], 2)
    kinds += [kinds[1]]
    for i, t in enumerate(kinds):
        p = mesh(r, t)
        if i == 2: # another mesh of the same kind, over the same range
            p = dict(ms[2])
            if "d" in p: p["d"] = [r.randrange(1, 4) if k < len(p["u"]) else 1 for k in range(3)]; p["how"] = ""
            else: p["n"] = max(1, p["n"] + r.randrange(-2, 3))
        ms[i + 1] = p
        ops.append({"op": "new", "id": i + 1, "p": p, "obs": True})
    if r.random() < 0.5:
        pr = r.choice([p for p in PRODS if len(p) == 2])
        for k, t in enumerate(pr):
            ms[10 + k] = mesh(r, t, True)
            ops.append({"op": "new", "id": 10 + k, "p": ms[10 + k], "obs": True})
        ms[12] = [ms[10], ms[11]]
        ops.append({"op": "prod", "id": 12, "a": [10, 11], "how": r.randrange(4)})
    for i, p in list(ms.items()):
        ops += evals(r, ms, i) + evals(r, ms, i)
        if isinstance(p, list): continue
        if p["t"] in ("brzone", "imtime", "retime", "refreq"):
            for _ in range(6):
                a = close(r, p, False)
                if a: ops.append({"op": "close", "id": i, "x": a})
        if p["t"] == "brzone":
            for _ in range(2):
                n = size(p)
                ops.append({"op": "kexpr", "id": i, "a": r.randrange(n), "b": r.randrange(n), "c": r.randrange(n), "n": r.randrange(-3, 4), "f": [r.randrange(-9, 10) for _ in range(n)]})
        if r.random() < 0.4:
            ops.append({"op": r.choice(["copy", "h5"]), "id": 40, "j": i, "k": i, "how": r.randrange(2), "obs": True})
            ms[40] = p
            ops += evals(r, ms, 40)
            del ms[40]
    return {"vals": True, "ops": ops}
def zone(r):
    """one Brillouin zone, every closest point on a fine grid"""
    for _ in range(50):
        p = {"t": "brzone", "u": r.choice(LAT2 + LAT3), "d": [1, 1, 1], "how": ""}
        for k in range(len(p["u"])): p["d"][k] = r.randrange(1, 7 if len(p["u"]) < 3 else 4)
        ops = [{"op": "new", "id": 1, "p": p, "obs": True}]
        for _ in range(25):
            a = close(r, p, False)
            if a: ops.append({"op": "close", "id": 1, "x": a})
        if len(ops) > 5: return {"vals": True, "ops": ops}
    return {"vals": True, "ops": []}
def check(c):
    exe = c.build("meshx", SRC)
    c.model("MCMesh", "MCMeshV")
    hs = [history(c.rng) for _ in range(c.pick(150, 2500))] + [zone(c.rng) for _ in range(c.pick(25, 500))]
    c.validate("TraceMesh", "TraceMesh", c.run_driver([exe], hs, "mesh"), "values, closest points and interpolation")
