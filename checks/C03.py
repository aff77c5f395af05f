import mcgen
KINDS = ["attempt", "nan", "accept", "reject", "measure", "aux", "duty"]


def history(r):
    nr = r.choice([1, 2, 2, 3, 3, 4])
    env = nr > 1 or r.random() < 0.5
    if r.random() < 0.1: env = False
    rethrow = r.random() < 0.85
    h = {"nranks": nr, "rethrow": rethrow, "env": env and nr > 1, "seed": r.randrange(1, 10**6), "bias": r.choice([-1, -1] + list(range(nr))),
         "delay": [r.choice([0, 0, 1, 2, 5]) for _ in range(nr)], "ops": []}
    watching = h["env"] and rethrow
    for k in range(r.choice([1, 2, 2, 3])):
        meas = r.random() < 0.6
        ln = r.choice([1, 1, 2, 3])
        fail = []
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            kind = r.choice([x for x in KINDS if meas or x not in ("measure",)])
            fail.append([r.randrange(nr), kind, r.choice([1, 1, 2, 2, 3, 4])])
        # a failure which certainly happens: attempts and duties happen in every cycle
        sure = [f[0] for f in fail if f[1] in ("attempt", "nan", "duty")]
        n, stop = [], []
        for q in range(nr):
            x = r.choice([1, 2, 3, 5, 8, 12])
            s = r.choice([0, 0, 0, 2, 4])
            if q in sure:
                nth = min(f[2] for f in fail if f[0] == q and f[1] in ("attempt", "nan", "duty"))
                if r.random() < 0.5: x, s = max(x, nth), 0
            n.append(x); stop.append(s)
        definite = [q for q in sure if stop[q] == 0 and any(f[0] == q and f[1] in ("attempt", "nan", "duty") and f[2] <= n[q] for f in fail)]
        if definite and watching:
            # the others may run without limit: the failure alone ends them
            for q in range(nr):
                if q not in definite and r.random() < 0.5: n[q], stop[q] = -1, 0
        h["ops"].append({"n": n, "stop": stop, "len": ln, "meas": meas, "fail": fail})
    return h


def check(c):
    exe = c.build("mcranks", ["mcranks.cpp"] + mcgen.SRCS[1:], flags=["-DNDEBUG"])
    c.model("MCMcRanks", "MCMcRanks")
    if c.thorough: c.model("MCMcRanks", "MCMcRanks3", timeout=800)
    hs = [history(c.rng) for _ in range(c.pick(1500, 12000))]
    c.validate("TraceMcRanks", "TraceMcRanks", c.run_driver([exe], hs, "ranks"), "runs on several ranks")
    c.assumptions += ["ranks are threads over a simulated MPI layer (/verif/shim/mpi), scheduled one at a time by a seeded scheduler that switches at every callback and collective",
                      "a failure flag becomes visible to other ranks after an arbitrary (seeded) number of polls"]
