NAMES = ["", "mt19937", "mt11213b", "lagged_fibonacci607", "lagged_fibonacci1279", "lagged_fibonacci2281", "lagged_fibonacci3217", "lagged_fibonacci4423",
         "lagged_fibonacci9689", "lagged_fibonacci19937", "lagged_fibonacci23209", "lagged_fibonacci44497", "ranlux3"]


def rng_history(r, name, long_):
    pos, live = {1: 0}, [1]
    ops, top = [], 0
    for _ in range(r.randrange(5, 25)):
        i = r.choice(live)
        x = r.random()
        if x < 0.2: ops.append({"op": "draw", "i": i}); pos[i] += 1
        elif x < 0.35: ops.append({"op": "preview", "i": i}); top = max(top, pos[i] + 1)
        elif x < 0.5:
            k = r.choice([1, 2, 5, 30])
            if long_ and r.random() < 0.5:  # go to a boundary of a buffer of 1000
                k = r.choice([998, 999, 1000, 1001]) if r.random() < 0.5 else max(1, 1000 - pos[i] % 1000 + r.choice([-1, 0, 0, 1]))
            if pos[i] + k < 4000: ops.append({"op": "skip", "i": i, "k": k}); pos[i] += k
        elif x < 0.7:
            n = r.choice([1, 1, 2, 3, 4, 7, 10, 100, 1000, 16384, 30000])
            ops.append({"op": "int", "i": i, "n": n, "t": r.randrange(5)})
            if n > 1: pos[i] += 1
        elif x < 0.78: ops.append({"op": "upto", "i": i, "b": r.choice([1.0, 2.0, 0.5, 10.0, 3.25, 1e-8, 1e6])}); pos[i] += 1
        elif x < 0.86:
            a = r.choice([0.0, -1.0, 2.0, 0.25, -7.5])
            ops.append({"op": "between", "i": i, "a": a, "b": a + r.choice([1.0, 0.5, 4.0, 10.0])}); pos[i] += 1
        elif x < 0.93:
            j = r.choice([q for q in (1, 2, 3) if q != i])
            ops.append({"op": "move", "i": i, "j": j, "assign": r.random() < 0.5})
            pos[j] = pos.pop(i)
            live = sorted(pos)
        elif x < 0.97:
            j = r.randrange(1, 4)
            ops.append({"op": "new", "i": j}); pos[j] = 0; live = sorted(pos)
        else: ops.append({"op": "name", "i": i})
        top = max([top] + list(pos.values()))
    h = {"kind": "rng", "name": name, "seed": r.choice([0, 1, 2, 198, 34788, 2**31 - 1, 2**31, 2**32 - 1, r.randrange(2**32)]), "len": top + 2, "ops": ops}
    if r.random() < 0.08: h["default"] = True
    return h


def check(c):
    exe = c.build("rng", ["rng.cpp", "repo:mc_tools/random_generator.cpp", "repo:mc_tools/MersenneRNG.cpp"])
    hs = [{"kind": "names", "sep": s, "bad": ["mt1993", "MT19937", "mt19937 ", " ", "ranlux", "lagged_fibonacci", "mt19937mt11213b", "lagged_fibonacci60"]} for s in (" ", ",", ";")]
    for s in (1, 2, 3):
        for ops in c.tour("MCRandomStream", f"MCRandomStream{s}", maxlen=40):
            for a in (False, True):
                hs.append({"kind": "counter", "size": s, "ops": [dict(o, assign=a) for o in ops]})
    for _ in range(c.pick(60, 600)):
        size = c.rng.choice([1, 2, 3, 5, 10, 64])
        ops, live = [], [1]
        for _ in range(c.rng.randrange(10, 60)):
            i = c.rng.choice(live)
            o = {"op": c.rng.choice(["draw", "draw", "preview", "skip", "copy", "move", "new"]), "i": i, "j": c.rng.choice([q for q in (1, 2, 3) if q != i]), "k": c.rng.choice([1, size, size + 1, max(1, size - 1), 3 * size]), "assign": c.rng.random() < 0.5}
            if o["op"] == "copy": live = sorted(set(live) | {o["j"]})
            if o["op"] == "move": live = sorted((set(live) | {o["j"]}) - {i})
            ops.append(o)
        hs.append({"kind": "counter", "size": size, "ops": ops})
    for _ in range(c.pick(6, 60)):
        for k, n in enumerate(NAMES):
            hs.append(rng_history(c.rng, n, c.rng.random() < 0.4))
    c.validate("TraceRandomStream", "TraceRandomStream", c.run_driver([exe], hs, "rng"), "buffered streams and generators")
