import json
import fermigen as g

def check(c):
    exe = c.build("ops", g.SRCS)
    for cfg in ["MCFermions_w2", "MCFermions_w3", "MCFermions_r"] + (["MCFermions_w3big"] if c.thorough else []): c.model("MCFermions", cfg)
    r = c.rng
    hs = []
    # behaviours of the specification's register machine
    for ops in c.behaviours("MCFermions", "MCFermions_sim", c.pick(48, 400), 25):
        sc = r.choice(["complex", "roc"])
        hs.append({"kind": "ops", "scalar": sc, "names": g.names(r, 3),
                   "ops": [dict(o, how=r.randrange(3), real=o.get("im", 0) == 0) for o in ops] + [{"op": "query", "a": 1, "b": 2}, {"op": "print", "a": 3}]})
    for i in range(c.pick(240, 4000)):
        sc = ["double", "complex", "roc"][i % 3]
        n = r.randrange(1, 7)
        hs.append({"kind": "ops", "scalar": sc, "names": g.names(r, n), "ops": g.history(r, sc, 40, n)})
    # every word of four letters over two modes, multiplied from the left and from the right
    L = [1, 2, -1, -2]
    words = [(a, b, d, e) for a in L for b in L for d in L for e in L]
    for i, w in enumerate(words if c.thorough else r.sample(words, 96)):
        let = lambda d, x: {"op": "cdag" if x > 0 else "c", "d": d, "k": abs(x)}
        ops = [let(0, w[0])] + [o for x in w[1:] for o in (let(1, x), {"op": "mul", "d": 0, "a": 0, "b": 1, "how": 1})]
        ops += [let(2, w[3])] + [o for x in w[2::-1] for o in (let(1, x), {"op": "mul", "d": 2, "a": 1, "b": 2})]
        ops += [{"op": "query", "a": 0, "b": 2}, {"op": "dag", "d": 3, "a": 0}, {"op": "mul", "d": 4, "a": 3, "b": 0}, {"op": "query", "a": 4, "b": 3}]
        hs.append({"kind": "ops", "scalar": ["double", "complex", "roc"][i % 3], "names": g.names(r, 2), "ops": ops})
    c.validate("TraceManyBody", "TraceManyBody", c.run_driver([exe], hs, "ops"), "operator algebra")
    c.assumptions.append("Coefficients are Gaussian integers (exact in double precision), monomials of at most 9 operators over at most 6 modes; HDF5 is an in-memory stand-in for the h5 library and the HDF5 C calls.")
