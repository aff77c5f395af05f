"""Random operations for the second-quantisation checks (the oracle is the TLA+ specification, not this file)."""
SRCS = ["ops.cpp", "repo:operators/many_body_operator.cpp", "repo:hilbert_space/fundamental_operator_set.cpp", "repo:utility/stack_trace.cpp"]
STR = ['', 'a', 'b', 'up', 'down', 'up-0', 's1', 'i1', '0', '1', '10', '|', 'x y', 'Up', 'up ', ' up', ' ', 'i0', 's', '-1', 'UP', 'd_x2-y2', 'a,b', '(', 'long_name_of_an_orbital_long_name_of_an_orbital_long_name_of_an_orbital_long_name_of_an_orbital_']

def name(r, big=True):
    n = r.choice([0, 1, 1, 1, 2, 2, 2, 3])
    return [r.choice(STR) if r.random() < 0.5 else r.choice([0, 1, 2, 10, -1, 7] + ([3000000000, -5000000000, 2147483647] if big else [])) for _ in range(n)]

def key(t):
    """the order of index tuples: lexicographic, integers before strings"""
    return [(0, x, "") if isinstance(x, int) else (1, 0, x) for x in t]

def names(r, n, big=True):
    s = []
    while len(s) < n:
        t = name(r, big) if r.random() < 0.6 else r.choice([[r.choice(["up", "down"]), r.randrange(4)], [r.randrange(9)]])
        if t not in s: s.append(t)
    return sorted(s, key=key)

def canonical(r, n, length):
    nd = r.randrange(0, length + 1)
    d = sorted(r.sample(range(1, n + 1), min(nd, n)))
    a = sorted(r.sample(range(1, n + 1), min(length - nd, n)))
    return d + [-k for k in reversed(a)]

def history(r, scalar, steps, n):
    """a program over 5 registers; bounds on the coefficients and lengths keep TLC's integers small"""
    ops = []
    bound = [0] * 5; ln = [0] * 5; terms = [0] * 5
    def z(nonzero=False):
        re, im = r.choice([0, 1, 1, -1, 2, -3]), (r.choice([0, 0, 1, -1, 2]) if scalar != "double" else 0)
        if nonzero and re == im == 0: re = -2
        return {"re": re, "im": im, "real": im == 0 and r.random() < 0.7}
    def put(d, b, l, t): bound[d], ln[d], terms[d] = b, l, t
    while len(ops) < steps:
        d, a, b = r.randrange(5), r.randrange(5), r.randrange(5)
        how = r.randrange(3)
        if r.random() < 0.5: d = a
        if r.random() < 0.12: b = a
        k = r.randrange(1, n + 1)
        x = r.random()
        if x < 0.16: ops.append({"op": r.choice(["c", "cdag"]), "d": d, "k": k, "how": r.randrange(2)}); put(d, 1, 1, 1)
        elif x < 0.20: ops.append({"op": "n", "d": d, "k": k}); put(d, 1, 2, 1)
        elif x < 0.23: ops.append({"op": "scalar", "d": d, **z()}); put(d, 5, 0, 1)
        elif x < 0.30:
            m = canonical(r, n, r.randrange(0, 6)); ops.append({"op": "mono", "d": d, "m": m, **z()}); put(d, 5, len(m), 1)
        elif x < 0.44: put(d, bound[a] + bound[b], max(ln[a], ln[b]), terms[a] + terms[b]); ops.append({"op": r.choice(["add", "sub"]), "d": d, "a": a, "b": b, "how": how})
        elif x < 0.60:
            nb, nl, nt = bound[a] * bound[b] * 34, ln[a] + ln[b], terms[a] * terms[b] * 2
            if nb > 3e8 or nl > 9 or nt > 60: continue
            ops.append({"op": "mul", "d": d, "a": a, "b": b, "how": how}); put(d, nb, nl, nt)
        elif x < 0.66: ops.append({"op": r.choice(["adds", "subs", "rsub"]), "d": d, "a": a, "how": how, **z()}); put(d, bound[a] + 6, ln[a], terms[a] + 1)
        elif x < 0.71:
            if bound[a] > 1e8: continue
            ops.append({"op": "muls", "d": d, "a": a, "how": how, **z()}); put(d, bound[a] * 5, ln[a], terms[a])
        elif x < 0.73:
            if bound[a] > 1e8: continue
            q = r.choice([1, -1, 2, -2, 4]); i = scalar != "double" and r.random() < 0.5
            ops.append({"op": "divs", "a": a, "how": r.randrange(2), "re": 0 if i else q, "im": q if i else 0, "real": not i})
        elif x < 0.80: ops.append({"op": r.choice(["neg", "dag", "dag"]), "d": d, "a": a}); put(d, bound[a], ln[a], terms[a])
        elif x < 0.83: ops.append({"op": r.choice(["real", "imag"]), "d": d, "a": a}); put(d, bound[a], ln[a], terms[a])
        elif x < 0.87: o = r.choice(["copy", "conv", "rebuild"]); ops.append({"op": o, "d": d, "a": a, "how": how, "re": 0, "real": o != "conv"}); put(d, bound[a], ln[a], terms[a])
        elif x < 0.88: ops.append({"op": "toreal", "a": a})
        elif x < 0.90:
            if bound[a] > 1e8: continue
            ops.append({"op": "transform", "d": d, "a": a, "k": r.randrange(0, 5)}); put(d, bound[a] * 9, ln[a], terms[a])
        elif x < 0.92: ops.append({"op": "fops", "a": a})
        elif x < 0.95: ops.append({"op": "query", "a": a, "b": b})
        elif x < 0.97: ops.append({"op": "print", "a": a})
        else: ops.append({"op": "h5", "d": d, "a": a, "how": r.randrange(2)}); put(d, max(bound[a], bound[d]), max(ln[a], ln[d]), max(terms[a], terms[d]))
        # laws: the same operator computed in two ways compares equal
        if x > 0.995: break
    for d in range(5): ops += [{"op": "print", "a": d}, {"op": "query", "a": d, "b": (d + 1) % 5}]
    return ops

STATE_SRCS = ["states.cpp", "repo:operators/many_body_operator.cpp", "repo:hilbert_space/fundamental_operator_set.cpp", "repo:utility/stack_trace.cpp"]

def coef(r, cplx):
    re, im = r.choice([1, 1, -1, 2, -3]), (r.choice([0, 1, -1, 2]) if cplx else 0)
    if cplx and r.random() < 0.15: re = 0; im = im or 1
    return [re, im]

def termlist(r, n, cplx, count, maxlen=4, conserve=None):
    """distinct canonical monomials with coefficients; conserve: change of the number of particles of the modes in each group"""
    out, seen = [], set()
    for _ in range(count * 20):
        if len(out) == count: break
        m = canonical(r, n, r.randrange(0, maxlen + 1))
        if conserve is not None:
            groups, delta = conserve
            if [sum((1 if x > 0 else -1) for x in m if abs(x) in gr) for gr in groups] != list(delta): continue
        if tuple(m) in seen: continue
        seen.add(tuple(m)); out.append([m] + coef(r, cplx))
    return out

def states_history(r, big=False):
    cplx, mp, sub = r.random() < 0.5, r.random() < 0.5, r.random() < 0.5
    n = r.randrange(1, 6)
    pad = 0
    if big: pad = r.choice([8, 14, 17, 24]) if not sub else r.choice([8, 14, 30, 40, 58])
    if big and not sub: mp = mp or pad > 12
    nm = names(r, n)
    order = list(range(1, n + 1)); r.shuffle(order)
    low = r.randrange(0, pad + 1)
    pos = {k: low + i for i, k in enumerate(order)}
    h = {"kind": "states", "scalar": "complex" if cplx else "double", "map": mp, "sub": sub, "names": nm, "order": order, "pad": pad - low, "padlow": low}
    N = n + pad
    # the padded orbitals carry a fixed random pattern in each state
    pats = [sorted(r.sample([b for b in range(N) if not low <= b < low + n], r.randrange(0, min(pad, 9) + 1))) for _ in range(2)] if pad else [[]]
    allf = [sorted([low + b for b in range(n) if (x >> b) & 1] + p) for x in range(2 ** n) for p in pats]
    groups = [set(range(1, n + 1))] if r.random() < 0.5 else [set(order[: n // 2]), set(order[n // 2:])]
    def charge(f): return tuple(sum(1 for k in gr if pos[k] in f) for gr in groups)
    spaces, charges = [], []
    for f in allf:
        q = charge(f)
        if q not in charges: charges.append(q); spaces.append([])
        spaces[charges.index(q)].append(f)
    z = list(zip(charges, spaces)); r.shuffle(z)
    charges, spaces = [a for a, _ in z], [b for _, b in z]
    for s in spaces: r.shuffle(s)
    h["spaces"] = spaces if sub else [s for s in spaces]
    zero = [0] * len(groups)
    ops = []
    grow = [1] * 4
    def zc():
        a = coef(r, cplx); return {"re": a[0], "im": a[1]}
    for _ in range(30):
        d, a, b = r.randrange(4), r.randrange(4), r.randrange(4)
        if r.random() < 0.4: d = a
        if r.random() < 0.1: b = a
        x = r.random(); how = r.randrange(3); sp = r.randrange(len(spaces)) if sub else 0
        f = r.choice(spaces[sp]) if sub else r.choice(allf)
        if x < 0.05: ops.append({"op": "zero", "d": d, "sp": sp}); grow[d] = 1
        elif x < 0.08: ops.append({"op": "mkzero", "d": d, "a": a}); grow[d] = 1
        elif x < 0.18: ops.append({"op": "basis", "d": d, "sp": sp, "f": f}); grow[d] = 1
        elif x < 0.28: ops.append({"op": r.choice(["set", "inc"]), "d": d, "f": r.choice(allf), **(zc() if r.random() < 0.85 else {"re": 0, "im": 0})}); grow[d] += 4
        elif x < 0.38:
            if grow[a] + grow[b] > 1e7: continue
            ops.append({"op": r.choice(["add", "sub"]), "d": d, "a": a, "b": b, "how": how}); grow[d] = grow[a] + grow[b]
        elif x < 0.42:
            if grow[a] > 1e6: continue
            ops.append({"op": "muls", "d": d, "a": a, "how": how, **(zc() if r.random() < 0.9 else {"re": 0, "im": 0})}); grow[d] = grow[a] * 4
        elif x < 0.44:
            if grow[a] > 1e7: continue
            q = r.choice([1, -1, 2, -2, 4]); i = cplx and r.random() < 0.5
            ops.append({"op": "divs", "a": a, "how": r.randrange(2), "re": 0 if i else q, "im": q if i else 0})
        elif x < 0.50:
            if grow[a] * grow[b] > 3e6: continue
            ops.append({"op": "dot", "a": a, "b": b})
        elif x < 0.53: ops.append({"op": "copy", "d": d, "a": a}); grow[d] = grow[a]
        elif x < 0.80:
            if grow[a] > 1e5: continue
            left = r.random() < 0.25 and grow[a] < 1e3
            t = termlist(r, n, cplx, r.randrange(0, 6), conserve=(groups, zero) if sub else None)
            o = {"op": "act", "d": d, "a": a, "terms": t}
            if left: o["left"] = termlist(r, n, cplx, r.randrange(1, 4), conserve=(groups, zero) if sub else None)
            if r.random() < 0.2: o["times"] = r.choice([2, -1, 3])
            ops.append(o); grow[d] = grow[a] * 18 * (12 if left else 1) * 3
        elif x < 0.90 and sub:
            if grow[a] > 1e6: continue
            delta = [r.choice([-1, 0, 1, 1, -1, 2]) for _ in groups]
            t = termlist(r, n, cplx, r.randrange(1, 5), conserve=(groups, delta))
            mp_ = [(charges.index(tuple(q + e for q, e in zip(c0, delta))) if tuple(q + e for q, e in zip(c0, delta)) in charges else -1) for c0 in charges]
            ops.append({"op": "actmap", "d": d, "a": a, "terms": t, "map": mp_}); grow[d] = grow[a] * 15
        elif x < 0.95: ops.append({"op": "project", "a": a})
        else: ops.append({"op": "print", "a": a})
    h["ops"] = ops
    return h

def conj_terms(t):
    return [[[-x for x in reversed(m)], re, -im] for m, re, im in t]

def hermitian(r, n, cplx, count, conserve=None):
    h = {}
    for m, re, im in termlist(r, n, cplx, count, conserve=conserve):
        mc = [-x for x in reversed(m)]
        if mc == m: h[tuple(m)] = [re, 0] if re else [1, 0]
        else: h[tuple(m)] = [re, im]; h[tuple(mc)] = [re, -im]
    return [[list(m)] + c for m, c in h.items()]

def partition_history(r, merges=True):
    cplx, mp = r.random() < 0.3, r.random() < 0.7
    n = r.choice([1, 2, 2, 3, 3, 3, 4, 4])
    nm = names(r, n); order = list(range(1, n + 1)); r.shuffle(order)
    h = {"kind": "partition", "scalar": "complex" if cplx else "double", "map": mp, "names": nm, "order": order}
    kind = r.random()
    cons = ([set(range(1, n + 1))], [0]) if kind < 0.6 else None
    ops = []
    for _ in range(r.randrange(1, 3)):
        o = {"op": "part", "terms": hermitian(r, n, cplx, r.choice([0, 0, 1, 2, 3, 4]), cons), "store": r.random() < 0.6, "how": r.randrange(2)}
        if r.random() < 0.25: o["hyb"] = hermitian(r, n, cplx, r.randrange(0, 3), cons)
        ops.append(o)
        for _ in range(r.randrange(1, 6)):
            x = r.random()
            if x < 0.55 and merges:
                # beside the creation operators: general operators, which can need several passes until nothing is left to merge
                t = [[[r.randrange(1, n + 1)], 1, 0]] if r.random() < 0.5 else termlist(r, n, cplx, r.randrange(1, 5))
                ops.append({"op": "merge", "terms": t, "conj": conj_terms(t), "store": r.random() < 0.5})
            elif x < 0.9: ops.append({"op": "find", "terms": termlist(r, n, cplx, r.randrange(1, 4)), "diag": r.random() < 0.3})
            else: ops.append({"op": "copy"})
    h["ops"] = ops
    return h
