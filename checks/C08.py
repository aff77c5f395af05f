import fermigen as g

def check(c):
    exe = c.build("ops", g.SRCS)
    c.model("MCFundamentalOps", "MCFundamentalOps")
    r = c.rng
    hs = []
    def put(ops): hs.append({"kind": "fops", "ops": ops})
    for ops in c.tour("MCFundamentalOps", "MCFundamentalOps_tour", maxlen=80) + c.behaviours("MCFundamentalOps", "MCFundamentalOps_sim", c.pick(60, 600), 40):
        nm = {i + 1: t for i, t in enumerate(sorted(g.names(r, 6), key=lambda _: r.random()))}
        put([dict(o, t=nm[o["x"]], how=r.randrange(2)) if "x" in o else o for o in ops])
    for _ in range(c.pick(150, 2000)):
        pool = g.names(r, r.randrange(2, 9))
        ops = []
        for _ in range(40):
            d, a = r.randrange(4), r.randrange(4)
            x = r.random()
            if x < 0.4: ops.append({"op": "insert", "d": d, "t": r.choice(pool), "how": r.randrange(2)})
            elif x < 0.5: ops.append({"op": "merge", "d": d, "a": a})
            elif x < 0.6: ops.append({"op": "look", "d": d, "t": r.choice(pool)})
            elif x < 0.65: ops.append({"op": "walk", "d": d})
            elif x < 0.70: ops.append({"op": "copy", "d": d, "a": a})
            elif x < 0.78: ops.append({"op": "h5", "d": d, "a": a})
            elif x < 0.85: ops.append({"op": "eq", "d": d, "a": a})
            elif x < 0.89: ops.append({"op": "fromlist", "d": d, "v": r.sample(pool, r.randrange(len(pool) + 1))})
            elif x < 0.92: ops.append({"op": "fromset", "d": d, "how": r.randrange(2), "v": [r.randrange(6) for _ in range(r.randrange(5))]})
            elif x < 0.95: ops.append({"op": "fromints", "d": d, "v": [r.randrange(4) for _ in range(r.randrange(4))]})
            elif x < 0.98: ops.append({"op": "fromgf", "d": d, "v": [[b, r.randrange(4)] for b in r.sample(["up", "down", "eg", "t2g"], r.randrange(4))]})
            else: ops.append({"op": "eq", "d": d, "a": d})
        put(ops)
    c.validate("TraceFundamentalOps", "TraceFundamentalOps", c.run_driver([exe], hs, "fops"), "sets of fundamental operators")
    c.assumptions.append("The attribute storage of h5 is an in-memory stand-in which pads ragged lists with empty strings as the library does.")
