def check(c):
    r = c.rng
    exe = c.build("generic", ["generic.cpp", "repo:utility/legendre.cpp", "repo:utility/stack_trace.cpp"])
    V = lambda n, lo=-9, hi=9: [r.randint(lo, hi) for _ in range(n)]
    def num():
        real = r.random() < 0.5
        return {"re": r.choice([0, 1, -1, 2, 3, -4, 8]), "im": 0 if real else r.choice([0, 0, 1, -1, 2, -3]), "real": real}
    hs = []
    for _ in range(c.pick(60, 800)):
        ops = []
        for _ in range(25):
            x = r.randrange(13)
            if x == 0: n = r.randrange(1, 6); ops.append({"op": "tuple", "t": V(n, 0, 9), "u": V(n)})
            elif x == 1: ops.append({"op": "select", "t": V(4)})
            elif x == 2: ops.append({"op": "bracket", "t": V(r.randrange(1, 5), 0, 9)})
            elif x == 3: ops.append({"op": "factory", "t": [V(r.randrange(4)) for _ in range(r.randrange(4))], "how": r.randrange(3)})
            elif x == 4: ops.append({"op": "dressed", "t": [V(2) for _ in range(r.randrange(5))], "aux": r.choice([1, 2, -3])})
            elif x == 5: k = r.choice([0, 1]); ops.append({"op": "variant", "t": V(r.randrange(5)) if k else [r.choice(["up", "down", "", "a b"]) for _ in range(r.randrange(5))]})
            elif x in (6, 7): ops.append({"op": r.choice("+-*"), "a": num(), "b": num(), "how": r.randrange(3)})
            elif x == 8:
                b = num()
                if b["re"] == 0 and b["im"] == 0: b["re"] = 2
                q = num()
                a = {"re": q["re"] * b["re"] - q["im"] * b["im"], "im": q["re"] * b["im"] + q["im"] * b["re"]}
                a["real"] = a["im"] == 0 and r.random() < 0.7
                ops.append({"op": "/", "a": a, "b": b, "how": r.randrange(3)})
            elif x == 9: ops.append({"op": "un", "a": num()})
            elif x == 10: a = num(); b = dict(a) if r.random() < 0.5 else num(); ops.append({"op": "eq", "a": a, "b": b})
            elif x == 11: ops.append({"op": "zero", "x": r.choice([0, 0, 1, -1, 5, -5, 6, 7, 100]), "y": r.choice([0, 1, -1, 5, -6, 50]), "tol": r.choice([1, 5, 6, 10])})
            else: ops.append(r.choice([{"op": "leg", "a": r.choice([-2, -1, 0, 1, 2]), "n": r.randrange(0, 9), "how": r.randrange(2)}, {"op": "tlp", "l": r.randrange(0, 9), "p": r.randrange(1, 9)}]))
        hs.append({"ops": ops})
    hs.append({"ops": [{"op": "tlp", "l": l, "p": p} for l in range(9) for p in range(1, 8)] + [{"op": "leg", "a": a, "n": 8, "how": 0} for a in (-2, -1, 0, 1, 2)]})
    c.validate("TraceGeneric", "TraceGeneric", c.run_driver([exe], hs, "generic"), "generic helpers")
