import random

def by(n):
    out = []
    while n: out.append(n & 255); n >>= 8
    return out

NMAX = 2**64 - 1

def point(r):
    x = r.random()
    if x < 0.3: return r.choice([0, 1, 2, NMAX, NMAX - 1, NMAX - 2, 2**63, 2**63 - 1, 2**63 + 1, 2**32, 2**32 - 1, 2**53, 2**53 + 1])
    if x < 0.6: return r.randrange(NMAX + 1)
    if x < 0.8: return r.randrange(2 ** r.randrange(1, 64))
    return NMAX - r.randrange(2 ** r.randrange(1, 64))

def history(r):
    p, q = r.choice([(1, 1), (2, 1), (10, 1), (100, 1), (21, 2), (3, 10), (1, 1000), (100000, 1), (1, 3), (137, 7)])
    ops = []
    for _ in range(r.randrange(10, 40)):
        i, j, k = (r.randrange(1, 5) for _ in range(3))
        x = r.random()
        if x < 0.2:
            at = r.choice(["n", "n", "n", "n", "up", "low", "eps", "default"])
            ops.append({"op": "put", "i": i, "at": at, "n": by(point(r))})
        elif x < 0.32: ops.append({"op": "add", "i": i, "j": j, "k": k})
        elif x < 0.46: ops.append({"op": "sub", "i": i, "j": j, "k": k})
        elif x < 0.5: ops.append({"op": "neg", "i": i, "j": j})
        elif x < 0.52: ops.append({"op": "copy", "i": i, "j": j})
        elif x < 0.56: ops.append({"op": "div", "i": i, "j": j, "m": by(r.choice([1, 2, 3, 7, 10, 1000, 2**31, 2**40, 2**63 + 1]))})
        elif x < 0.6: ops.append({"op": "mult", "i": i, "j": j, "m": by(r.choice([0, 1, 2, 3, 7, 1000, 2**33]))})
        elif x < 0.64: ops.append({"op": "floor", "j": j, "k": k})
        elif x < 0.74:
            o = {"op": "rnd", "i": i, "j": j, "k": k, "way": r.choice(["all", "below", "between", "between"])}
            y = r.random()
            if y < 0.25: o["x"] = "first"
            elif y < 0.5: o["x"] = "last"
            elif y < 0.75: o["x"] = [r.randrange(1000), 1000]
            ops.append(o)
        elif x < 0.84: ops.append({"op": "cmp", "j": j, "k": k})
        elif x < 0.91: ops.append({"op": "val", "j": j})
        elif x < 0.96:
            b = r.choice([1, 2, 3, 10, 1000])
            ops.append({"op": "from", "i": i, "a": r.choice([0, b, r.randrange(b + 1)]), "b": b})
        else: ops.append({"op": "h5", "i": i, "j": j})
    return {"p": p, "q": q, "ops": ops}

def check(c):
    exe = c.build("timept", ["timept.cpp", "repo:mc_tools/random_generator.cpp", "repo:mc_tools/MersenneRNG.cpp"])
    c.model("MCTimeGrid", "MCTimeGrid")
    c.model("MCTimeGrid", c.pick("MCTimeGrid3", "MCTimeGrid_big"))
    hs = [history(c.rng) for _ in range(c.pick(400, 6000))]
    c.validate("TraceTimeGrid", "TraceTimeGrid", c.run_driver([exe], hs, "timept"), "programs on time points")
