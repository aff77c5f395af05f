import fermigen as g

def check(c):
    exe = c.build("ops", g.SRCS)
    c.model("MCFockSpaces", "MCFockSpaces")
    r = c.rng
    hs = []
    def put(ops): hs.append({"kind": "spaces", "ops": ops})
    for ops in c.behaviours("MCFockSpaces", "MCFockSpaces_sim", c.pick(100, 1000), 40): put(ops)
    def fock(n): return sorted(r.sample(range(n), r.randrange(0, min(n, 6) + 1)))
    for k in range(c.pick(120, 1500)):
        n = r.choice([0, 1, 2, 3, 5, 8, 16, 20, 29, 30]) if k > 31 else min(k, 30)
        ops = [{"op": "full", "n": n}]
        for _ in range(30):
            x = r.random()
            edge = r.choice([fock(n), fock(n), [n] if n < 31 else [], list(range(n)), fock(min(31, n + 2))])
            if x < 0.2: ops.append({"op": "fhas", "f": r.choice([edge, [63], [n], [31], [32], [0, 40]])})
            elif x < 0.4: ops.append({"op": "findex", "f": r.choice([edge, edge, [63], [31], [32], [0, 40]])})
            elif x < 0.55: ops.append({"op": "ffock", "i": [b for b in edge if b < 31]})
            elif x < 0.75: ops.append({"op": "fgen", "p": fock(n) if n and r.random() < .8 else [n], "sub": False, "n": n})
            elif x < 0.85: m = r.choice([n + 1, 40, 64]); ops.append({"op": "fgen", "p": r.sample(range(m), r.randrange(min(m, 6) + 1)), "sub": True, "n": m})
            elif x < 0.95: ops.append({"op": "feq", "n": r.choice([n, max(0, n - 1), min(30, n + 1)])})
            else: ops.append({"op": "fh5"})
        put(ops)
    for _ in range(c.pick(120, 1500)):
        n = r.choice([3, 5, 10, 31, 32, 33, 63, 64])
        pool = []
        for _ in range(r.randrange(1, 14)):
            f = fock(n)
            if r.random() < 0.3: f = sorted(set(f) | {n - 1})
            if f not in pool: pool.append(f)
        ops, have = [], [[], [], []]
        for _ in range(40):
            d, a = r.randrange(3), r.randrange(3)
            f = r.choice(pool)
            x = r.random()
            if x < 0.4:
                if f in have[d]: ops.append({"op": "index", "d": d, "f": f})
                else: ops.append({"op": "add", "d": d, "f": f}); have[d].append(f)
            elif x < 0.55: ops.append({"op": "has", "d": d, "f": f})
            elif x < 0.65 and have[d]: ops.append({"op": "index", "d": d, "f": r.choice(have[d])})
            elif x < 0.72 and have[d]: ops.append({"op": "fock", "d": d, "i": r.randrange(len(have[d]))})
            elif x < 0.80: ops.append({"op": "all", "d": d})
            elif x < 0.86: ops.append({"op": r.choice(["copy", "h5", "h5"]), "d": d, "a": a}); have[d] = list(have[a])
            elif x < 0.92: ops.append({"op": "eq", "d": d, "a": a})
            elif x < 0.95: ops.append({"op": "setindex", "d": d, "i": r.randrange(3)})
            elif x < 0.97: ops.append({"op": "new", "d": d, "i": r.randrange(3)}); have[d] = []
            elif x < 0.98: ops.append({"op": "new0", "d": d}); have[d] = []
        put(ops)
    c.validate("TraceFockSpaces", "TraceFockSpaces", c.run_driver([exe], hs, "spaces"), "Fock spaces")
    c.assumptions.append("States of a subspace are added once (adding a state twice is not specified).  h5 is an in-memory stand-in.")
