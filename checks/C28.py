"""Distribution of work over ranks: recorded slices, collective calls and distributed loops against MpiWork."""
import sys
import vlib
def loop(r, size, items, serial=False, cls=None):
    cls = cls or r.choice(["stack", "own"])
    return {"op": "loop", "size": size, "items": items, "serial": serial, "cls": cls, "spawn": r.random() < 0.5, "slow": r.random() < 0.5, "as": r.choice([0, 0, 1, 2]),
            "bits": [r.random() < r.choice([0.2, 0.6, 0.9]) for _ in range(r.choice([1, 7, 23]))] + [True]}
def case(r, small=False):
    x = r.random(); serial = r.random() < 0.25; size = 1 if serial else r.randrange(1, 6)
    if x < 0.35:
        items = r.sample(range(0, 10), r.randrange(0, 8))
        for _ in range(r.randrange(0, 3)):
            if r.random() < 0.3: items.insert(r.randrange(len(items) + 1), -1)
        return loop(r, size, items, serial)
    if x < 0.6: return {"op": "cut", "lo": r.randrange(-5, 20), "n": r.choice([0, 1, 2, 3, size, size - 1, size + 1, 2 * size, r.randrange(0, 60)]), "size": r.choice([size, r.randrange(1, 17)]) if not serial else 1, "serial": serial}
    if x < 0.8: return {"op": "share", "v": [r.randrange(-50, 50) for _ in range(size)], "late": [r.randrange(0, 4) for _ in range(size)], "root": r.randrange(size), "size": size, "serial": serial, "poll": r.choice([-1, 0, 1, 0.5])}
    if x < 0.9: return {"op": "report", "size": size, "serial": serial, "calls": [{"texts": [r.randrange(100) for _ in range(r.randrange(0, 3))], "level": r.choice([-1, -1, 0, 1, 2, 3]), "err": r.random() < 0.3} for _ in range(r.randrange(1, 5))]}
    if x < 0.95: return {"op": "hosts", "size": size, "serial": serial}
    return {"op": "pick", "env": r.sample(range(4), r.choice([0, 0, 1, 1, 2])), "zero": r.random() < 0.5}
def check(c):
    c.model("MCMpiWork", "MCMpiWork_big" if c.thorough else "MCMpiWork")
    r = c.rng
    hs = [{"ops": [loop(r, b[0]["size"], b[0]["items"], False, "own"), loop(r, b[0]["size"], b[0]["items"])]} for b in inits(c)]
    hs += [{"ops": [case(r) for _ in range(6)]} for _ in range(c.pick(300, 3000))]
    c.validate("TraceMpiWork", "TraceMpiWork", c.run_driver([sys.executable, vlib.VERIF + "/drivers/mpiwork.py"], hs, "mpi", env={"VERIF_REPO": vlib.REPO}), "work shared by ranks")
    c.assumptions += ["mpi4py is replaced by a stand-in connecting threads; messages between two ranks keep their order", "scripts returning None for an item are outside (documented as ignored)"]
    c.finish()
def inits(c):
    "every stack of up to two items for one to three ranks (the initial states of MCMpiWork)"
    import itertools
    return [[{"size": s, "items": list(t)}] for s in (1, 2, 3) for n in range(3) for t in itertools.permutations([-1, 1, 2, 3], n)]
