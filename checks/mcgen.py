"""Operation histories for the Monte Carlo engine driver (drivers/mc.cpp)."""
import json
RNGS = ["mt19937", "mt11213b", "ranlux3", "lagged_fibonacci607", ""]


def tree(r, depth=0, ids=None, pow2=None):
    ids = ids if ids is not None else [0]
    n = r.choice([1, 2, 2, 3, 4] if depth == 0 else [1, 2, 3])
    if pow2 is None: pow2 = r.random() < 0.5
    if pow2:
        tot = r.choice([4, 8, 16, 32])
        cuts = sorted(r.randrange(tot + 1) for _ in range(n - 1))
        ws = [b - a for a, b in zip([0] + cuts, cuts + [tot])]
    else:
        ws = [r.choice([0, 1, 1, 2, 3, 5, 7]) for _ in range(n)]
        if sum(ws) == 0: ws[r.randrange(n)] = 1
    if False and ws[0] == 0 and r.random() < 0.5: ws[0], ws[ws.index(max(ws))] = max(ws), 0
    t = []
    for w in ws:
        ids[0] += 1
        if depth < 2 and r.random() < (0.25 if depth == 0 else 0.15): 
            me = ids[0]
            t.append({"w": w, "id": me, "sub": tree(r, depth + 1, ids)})
        else: t.append({"w": w, "id": ids[0]})
    return t


def script(r, n=None, bad=0.0, sig=0.0, cplx=False, mild=False):
    n = n or r.randrange(3, 23)
    out = []
    for _ in range(n):
        it = {}
        x = r.random()
        if x < 0.2: it["r"] = -1
        elif x < 0.4: it["r"] = -2
        elif x < 0.5: it["r"] = 0
        elif x < 0.6: it["r"] = 1 << 24
        elif x < 0.65: it["r"] = (1 << 24) - 1
        elif x < 0.75: it["r"] = r.randrange(1 << 24, 1 << 28)
        else: it["r"] = r.randrange(1 << 24)
        if not cplx and r.random() < 0.07: it["m"] = "inf"
        if r.random() < bad: 
            it["m" if r.random() < 0.3 else "thr"] = None
            if "m" in it and it["m"] is None: it["m"] = "nan"
            else: it["thr"] = r.choice([1, 2])
        it["ph"] = r.choice([0, 0, 1, 2, 2, 3]) if cplx else r.choice([0, 0, 2])
        it["aph"] = r.choice([0, 0, 1, 2, 3]) if cplx else r.choice([0, 0, 0, 2])
        if r.random() < sig: it["sig"] = r.choice([1, 2])
        if r.random() < 0.1: it["rng"] = r.randrange(1, 3)
        out.append(it)
    return out


def runop(r, sig=0.0, fail=0.0, meas_names=()):
    op = r.choice(["run", "warmup", "accumulate", "wa", "wa", "run"])
    o = {"op": op, "n": r.choice([0, 1, 1, 2, 3, 4, 5, 7, -1]), "len": r.choice([1, 1, 2, 3, 4])}
    if op == "run": o["meas"] = r.random() < 0.7
    if op == "wa": o["nw"] = r.choice([0, 1, 2, 3, -1])
    if op in ("warmup", "wa") and r.random() < 0.4: o["s0"] = r.choice([0, 2])
    st = []
    if r.random() < 0.35: st.append(r.randrange(1, 7))
    if o["n"] < 0 or o.get("nw", 0) < 0: st.append(r.randrange(1, 9)); 
    if st and (o["n"] < 0 and op == "wa"): st.append(r.randrange(5, 20))
    o["stop"] = st
    if r.random() < sig:
        x = r.random()
        if x < 0.4: o["psig"] = r.randrange(1, 6)
        elif x < 0.7: o["dsig"] = r.randrange(0, 5)
        elif meas_names: o["msig"] = [r.choice(meas_names), r.randrange(1, 6)]
    if r.random() < fail:
        x = r.random()
        if x < 0.3: o["dthr"] = r.randrange(0, 4)
        elif x < 0.6: o["athr"] = r.randrange(0, 4)
        elif meas_names: o["mthr"] = [r.choice(meas_names), r.randrange(0, 6)]
    return o


def history(r, focus="all", sig=0.0, bad=0.0, fail=0.0):
    cplx = r.random() < 0.4
    t = tree(r)
    h = {"cplx": cplx, "seed": r.randrange(1, 1 << 30), "rng": r.choice(RNGS), "verb": 0, "env": r.random() < 0.3, "rethrow": True, "tree": t,
         "tree_raw": json.dumps(t), "script": script(r, bad=bad, sig=sig * 0.15, cplx=cplx)}
    ops, names = [], []
    allnames = ["m1", "b", "Zeta", "m10", "a b"]
    def addm(dup=0.15):
        n = r.choice(allnames)
        if n not in names or r.random() < dup:
            pl = r.random() < 0.2
            ops.append({"op": "add_measure", "n": n, "rep": (not pl) and r.random() < 0.4, "plain": pl, "timer": r.random() < 0.5})
            if n not in names: names.append(n)
    for _ in range(r.choice([0, 1, 2, 3])): addm()
    if r.random() < 0.6: ops.append({"op": "duty", "on": True})
    for k in range(r.choice([0, 0, 1, 2, 3])): ops.append({"op": "aux", "k": r.choice([k, k, 7])})
    for _ in range(r.randrange(2, 8)):
        x = r.random()
        if x < 0.5: ops.append(runop(r, sig, fail, names))
        elif x < 0.6: addm(0.5)
        elif x < 0.65 and names:
            n = r.choice(names); names.remove(n); ops.append({"op": "rm_measure", "n": n})
        elif x < 0.67: names.clear(); ops.append({"op": "clear"})
        elif x < 0.70: ops.append({"op": "duty", "on": r.random() < 0.6})
        elif x < 0.73: ops.append({"op": "rng", "n": r.randrange(1, 5)})
        elif x < 0.83: ops.append({"op": "collect"}); ops.append({"op": "rates"})
        elif x < 0.85: ops.append({"op": "rates"})
        elif x < 0.88: ops.append({"op": "aux", "k": r.randrange(5)})
        elif x < 0.90: ops.append({"op": "times"})
        elif x < 0.95:
            reg = {}
            ops.append({"op": "save"})
            cur = current_measures(ops)
            if r.random() < 0.7: ops.append({"op": "load", "measures": cur})
        ops.append({"op": "get"})
        if r.random() < 0.3: ops.append({"op": "save"})
    ops.append({"op": "get"}); ops.append({"op": "save"}); ops.append({"op": "collect"})
    h["ops"] = ops
    h["ndraws"] = bound_draws(h)
    return h


def current_measures(ops):
    cur = {}
    for o in ops:
        if o["op"] == "add_measure": cur.setdefault(o["n"], o)
        elif o["op"] == "rm_measure": cur.pop(o["n"], None)
        elif o["op"] == "clear": cur.clear()
        elif o["op"] == "load": cur = {m["n"]: m for m in o["measures"]}
    return [dict(v, op="add_measure") for v in cur.values()]


def bound_draws(h):
    n = 60
    for o in h["ops"]:
        if o["op"] in ("run", "warmup", "accumulate", "wa"):
            c = o["n"] if o["n"] >= 0 else max(o["stop"] or [0]) + 3
            w = o.get("nw", 0)
            c += w if w >= 0 else max(o["stop"] or [0]) + 3
            n += c * o["len"] * 6
        elif o["op"] == "rng": n += o["n"]
    return min(n, 1500)


def multi(r):
    t = tree(r)
    nr = r.choice([1, 2, 3, 4])
    return {"mode": "multi", "nranks": nr, "seed": r.randrange(1, 10000), "rng": r.choice(RNGS), "tree": t, "tree_raw": json.dumps(t),
            "script": script(r, cplx=False), "ops": [{"op": "run", "n": ([r.randrange(1, 12) for _ in range(nr)] if r.random() < 0.9 else [0] * nr), "len": r.randrange(1, 4)} for _ in range(r.choice([1, 1, 2]))]}


def from_model(r, evs, cplx):
    """a behaviour of MCMonteCarlo (list of its events) as an operation history for the driver"""
    t = r.choice([[{"w": 1, "id": 1}, {"w": 1, "id": 2, "sub": [{"w": 1, "id": 3}]}], [{"w": 4, "id": 1}, {"w": 4, "id": 3}], [{"w": 2, "id": 1}]])
    ops, scr, cur, run, polls, meas, cyc = [], [], None, None, 0, 0, 0
    for e in evs:
        k = e.get("e")
        if k == "AddMeasure": ops.append({"op": "add_measure", "n": e["n"], "rep": e["rep"]})
        elif k == "AddAux": ops.append({"op": "aux", "k": e["k"]})
        elif k == "SetDuty": ops.append({"op": "duty", "on": True})
        elif k == "RmMeasure": ops.append({"op": "rm_measure", "n": e["n"]})
        elif k == "Collect": ops.append({"op": "collect"})
        elif k == "RunBegin":
            run = {"op": e["op"], "n": e["n"], "len": e["len"], "nw": e["nw"], "meas": e["meas"], "stop": []}
            if e["s0"] >= 0: run["s0"] = e["s0"]
            polls = meas = cyc = 0
            ops.append(run); ops.append({"op": "get"}); ops.append({"op": "save"})
        elif k == "Attempt":
            cur = {"m": e["m"], "ph": e["ph"], "r": {0: 0, 4: 1 << 24, 2: -2}[e["r"]]}
            if e["thr"]: cur["thr"] = 1
            scr.append(cur)
        elif k == "Accept":
            cur["aph"] = e["ph"]
            if e["thr"]: cur["thr"] = 2
        elif k == "Reject":
            if cur["r"] == -2: cur["r"] = -1
            if e["thr"]: cur["thr"] = 2
        elif k == "Duty":
            if e["thr"]: run["dthr"] = cyc
        elif k == "Aux":
            if e["thr"]: run["athr"] = cyc
        elif k == "Measure":
            if e["thr"]: run["mthr"] = [e["n"], meas]
            meas += 1
        elif k == "Signal":
            if e["at"] == "decide": cur["sig"] = 2
            elif e["at"] == "poll": run["psig"] = polls + 1
        elif k == "Poll":
            polls += 1; cyc += 1
            if e["r"]: run["stop"].append(polls)
    for o in ops:
        if o["op"] in ("run", "warmup", "accumulate", "wa") and (o["n"] < 0 or o["nw"] < 0) and not o["stop"]: o["stop"] = [7, 11]
    h = {"cplx": cplx, "seed": r.randrange(1, 1 << 30), "rng": r.choice(RNGS), "verb": 0, "env": r.random() < 0.5, "rethrow": True, "tree": t,
         "tree_raw": json.dumps(t), "script": scr or [{"r": -2}], "ops": ops}
    h["ndraws"] = bound_draws(h)
    return h


SRCS = ["mc.cpp", "repo:mc_tools/random_generator.cpp", "repo:mc_tools/MersenneRNG.cpp", "repo:utility/signal_handler.cpp", "repo:utility/stack_trace.cpp"]


def standard(c, cfg, hist, nq, models=(("MCMonteCarlo", "MCMonteCarlo"),), big=True, nsim=150):
    """the common part of the checks of the Monte Carlo engine"""
    exe = c.build("mc", SRCS, flags=["-DNDEBUG"])
    for m, k in models: c.model(m, k)
    if c.thorough and big: c.model("MCMonteCarlo", "MCMonteCarlo_big", timeout=3000)
    hs = []
    for k, cplx in (("MCMonteCarlo", False), ("MCMonteCarlo_faults", True)):
        for b in c.behaviours("MCMonteCarlo", k, c.pick(nsim, 10 * nsim), 45):
            hs.append(from_model(c.rng, b, cplx))
    hs += [hist(c.rng) for _ in range(c.pick(nq, 10 * nq))]
    fs = c.run_driver([exe], hs, "mc", timeout=c.pick(120, 900))
    c.validate("TraceMonteCarlo", cfg, fs, what="Monte Carlo engine")
