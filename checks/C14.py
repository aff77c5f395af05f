import detgen

def check(c, focus="matrix"):
    exe = c.build("detmanip", ["detmanip.cpp"])
    c.model("MCDetManip", "MCDetManip")
    if c.thorough:
        c.model("MCDetManip", "MCDetManip3")
        c.model("MCDetManip", "MCDetManip_big", timeout=1500)
    hs = [detgen.from_model(ops, c.rng) for ops in c.behaviours("MCDetManip", "MCDetManip_sim", c.pick(150, 1500), 25)]
    hs += [detgen.Gen(c.rng, focus).history(c.rng.randrange(20, 120)) for _ in range(c.pick(250, 4000))]
    c.validate("TraceDetManip", "TraceDetManip", c.run_driver([exe], hs, "detmanip"), "histories of transactions")
