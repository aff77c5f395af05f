def check(c):
    exe = c.build("helpers", ["helpers.cpp", "repo:utility/stack_trace.cpp"])
    c.model("MCHelpers", "MCHelpers")
    hs = []
    for p in "gtrx":
        for ops in c.behaviours("MCHelpers", f"MCHelpers_{p}", c.pick(300, 3000), 40):
            for o in ops:
                if o["op"] == "xcopy": o["throw"] = c.rng.random() < 0.5
            hs.append({"ops": ops})
    ops = []
    for s in list(range(0, 130)) + [3599, 3600, 3601, 7199, 7200, 35999, 36000, 86399, 86400, 359999, 360000] + [c.rng.randrange(400000) for _ in range(100)]: ops.append({"op": "hms", "sec": s})
    for _ in range(200):
        n = c.rng.randrange(1, 500)
        ops.append({"op": "eta", "n": n, "it": c.rng.randrange(n), "el": c.rng.choice([0, 1, 5, 60, 1000]), "throw": c.rng.random() < 0.5})
    hs.append({"ops": ops})
    for k in range(50): hs.append({"ops": [{"op": "macro", "i": 1, "a": 1 + q, "throw": c.rng.random() < 0.5} for q in range(k % 5)]})
    c.validate("TraceHelpers", "TraceHelpers", c.run_driver([exe], hs, "helpers"), "helpers")
