import fermigen as g

def check(c):
    exe = c.build("states", g.STATE_SRCS)
    for cfg in ["MCFermions_w2", "MCFermions_w3", "MCFermions_r"]: c.model("MCFermions", cfg)
    r = c.rng
    hs = [g.states_history(r, big=i % 4 == 3) for i in range(c.pick(240, 4000))]
    c.validate("TraceStates", "TraceStates", c.run_driver([exe], hs, "states", mem_gb=16), "operators acting on states")
    c.assumptions.append("Amplitudes and coefficients are Gaussian integers; operators of up to 6 terms over at most 5 active modes, anywhere among up to 30 (full space) or 63 (subspaces) orbitals.")
