"""Random histories for the exact-diagonalisation check (the oracle is the TLA+ specification, not this file)."""
import fermigen as g
SRCS = ["atomd.cpp"] + ["repo:atom_diag/impl/%s.cpp" % x for x in ("atom_diag", "functions", "gf", "worker")] + \
       ["repo:operators/many_body_operator.cpp", "repo:hilbert_space/fundamental_operator_set.cpp", "repo:utility/stack_trace.cpp", "repo:utility/legendre.cpp"]

def add(t, m, re, im=0):
    a = t.setdefault(tuple(m), [0, 0]); a[0] += re; a[1] += im
def out(t): return [[list(m)] + c for m, c in t.items() if c != [0, 0]]

def integer_h(r, n, cplx, diag):
    """a Hamiltonian with an integer spectrum, the denominators of its projectors and whether the particles are conserved"""
    t, D, cons = {}, 1, True
    modes = list(range(1, n + 1)); r.shuffle(modes)
    def nn(i, c): add(t, [i, -i], c)
    def nnn(i, j, c): add(t, [min(i, j), max(i, j), -max(i, j), -min(i, j)], c)
    units = []
    while modes:
        if len(modes) >= 2 and not diag and r.random() < 0.75:
            i, j = sorted([modes.pop(), modes.pop()])
            ph = r.choice([(1, 0), (-1, 0)] + ([(0, 1), (0, -1)] if cplx else []))
            if r.random() < 0.75:
                e, d = r.choice([-1, 0, 0, 1, 2]), r.choice([1, 1, -1, 2])
                nn(i, e); nn(j, e)
                add(t, [i, -j], d * ph[0], d * ph[1]); add(t, [j, -i], d * ph[0], -d * ph[1])
                if r.random() < 0.6: nnn(i, j, r.choice([1, 2, -1]))
                units.append((i, j))
            else:
                d = r.choice([1, -1, 2])
                add(t, [i, j], d * ph[0], d * ph[1]); add(t, [-j, -i], d * ph[0], -d * ph[1])
                cons = False
            D *= 2
        else:
            i = modes.pop(); nn(i, r.choice([-2, -1, 0, 0, 1, 1, 2])); units.append((i,))
    for a in range(len(units)):
        for b in range(a):
            if r.random() < 0.5:
                u = r.choice([1, 1, 2, -1])
                for i in units[a]:
                    for j in units[b]: nnn(i, j, u)
    if r.random() < 0.2: add(t, [], r.choice([1, -2]))
    return out(t), D, cons

def spread(h, n, D):
    """the range of the spectrum is bounded by the sum of the coefficients"""
    return sum(abs(a) + abs(b) for m, a, b in h if m)

def gfnames(r, n):
    """modes named by a block and an inner index, the blocks in order"""
    blocks = r.sample(["a", "b", "down", "up", "x"], 5)
    s, gf = [], []
    left = n
    while left:
        k = r.randrange(1, min(left, 3) + 1); left -= k
        b = blocks.pop(); gf.append([b, k]); s += [[b, i] for i in range(k)]
    return sorted(s, key=g.key), gf

def groups_of(r, n):
    modes = list(range(1, n + 1)); r.shuffle(modes)
    if n == 1 or r.random() < 0.4: return [set(modes)]
    k = r.randrange(1, n); return [set(modes[:k]), set(modes[k:])]

def history(r, nmax=4):
    n = r.choice([1, 2, 2, 3, 3, 3] + [k for k in (4, 4, 5) if k <= nmax])
    cplx = r.random() < 0.5
    thermal = r.random() < 0.55
    nm, gf = gfnames(r, n) if thermal or r.random() < 0.5 else (g.names(r, n), None)
    order = list(range(1, n + 1)); r.shuffle(order)
    H = {"cplx": cplx, "names": nm, "order": order}
    ops = []
    def fock(): return [p for p in range(n) if r.random() < 0.5]
    Dmax, alld, smax = 1, True, 0
    for _ in range(r.choice([1, 1, 2])):
        D, diag = 1, r.random() < 0.4
        x = r.random()
        ctor = "auto" if x < 0.35 else "qn" if x < 0.65 else "filter" if x < 0.85 else "hyb"
        grp = groups_of(r, n)
        kind = r.random()
        if thermal:
            for _ in range(50):
                h, D, cons = integer_h(r, n, cplx, diag)
                if spread(h, n, D) <= 14 and (cons or ctor not in ("qn", "filter")): break
            else: h, D, cons = [], 1, True
        elif kind < 0.75: h = g.hermitian(r, n, cplx, r.randrange(0, 6), (grp, [0] * len(grp)))
        else: h = g.hermitian(r, n, cplx, r.randrange(0, 5), None if ctor in ("auto", "hyb") else ([set(range(1, n + 1))], [0]))
        o = {"op": "diag", "ctor": ctor, "h": h, "hyb": [], "nmin": 0, "nmax": n, "qns": []}
        if ctor == "hyb": o["hyb"] = g.hermitian(r, n, cplx, r.randrange(0, 3))
        if ctor == "filter": o["nmin"] = r.randrange(0, n + 1); o["nmax"] = r.randrange(o["nmin"], n + 2)
        if ctor == "qn":
            if thermal or kind >= 0.75: grp = [set(range(1, n + 1))]
            qs = [[[[k, -k], 1, 0] for k in sorted(gr)] for gr in grp]
            if thermal and diag and r.random() < 0.6: qs = [[[[k, -k], r.choice([1, 1, 2]), 0]] for k in range(1, n + 1)]
            elif r.random() < 0.3: qs = [[t if r.random() < .5 else [t[0], 2 * t[1], 0] for t in q] if False else [[t[0], t[1] * 2, 0] for t in q] for q in qs]
            if r.random() < 0.15: qs = qs[:1]
            if r.random() < 0.08: qs = []
            if r.random() < 0.12: qs.append([[[1, -1], 0, 1]] if cplx and r.random() < 0.5 else ([[[1, 2, -2, -1], 1, 0]] if n > 1 and all(m == [-a for a in reversed(m)] for m, _, _ in h) else []))
            o["qns"] = qs
        ops.append(o)
        # the values a check asks for
        for _ in range(r.randrange(3, 9)):
            x = r.random()
            if x < 0.22: ops.append({"op": "mono", "m": g.canonical(r, n, r.randrange(0, 5)), "B": r.randrange(40)})
            elif x < 0.40:
                d = [r.choice([0, 0, 0, 1, -1]) for _ in grp]
                t = g.termlist(r, n, cplx, r.randrange(0, 4), conserve=(grp, d) if r.random() < 0.8 else None)
                ops.append({"op": "opmat", "t": t})
            elif x < 0.58:
                t = g.termlist(r, n, cplx, r.randrange(1, 4))
                psi = {tuple(fock()): g.coef(r, cplx) for _ in range(r.randrange(1, 4))}
                ops.append({"op": "act", "t": t, "psi": [[list(f)] + c for f, c in psi.items()]})
            elif x < 0.75:
                hm = r.random() < 0.5
                t = g.hermitian(r, n, cplx, r.randrange(1, 4)) if hm else g.termlist(r, n, cplx, r.randrange(1, 4), conserve=(grp, [0] * len(grp)))
                R = {}
                for _ in range(r.randrange(1, 5)):
                    a, b = fock(), fock()
                    if r.random() < 0.5: b = a
                    c = g.coef(r, cplx)
                    if hm:
                        if a == b: c[1] = 0; c[0] = c[0] or 1
                        R[tuple(b), tuple(a)] = [c[0], -c[1]]
                    R[tuple(a), tuple(b)] = c
                ops.append({"op": "rho", "t": t, "bad": r.choice([0] * 8 + [1, 2, 3]), "R": [[list(a), list(b)] + c for (a, b), c in R.items()]})
            elif x < 0.92:
                y = r.random()
                if y < 0.5: t = [[[k, -k], r.choice([1, 1, 2, -1]), 0] for k in (sorted(r.choice(grp)) if r.random() < 0.6 else range(1, n + 1))]
                elif y < 0.6: t = h
                elif y < 0.8 and n > 1:
                    i, j = sorted(r.sample(range(1, n + 1), 2))
                    t = [[[i, -j], 0, 1], [[j, -i], 0, -1]] if cplx and r.random() < 0.7 else [[[i, -j], 1, 0], [[j, -i], 1, 0]]
                else: t = g.hermitian(r, n, cplx, r.randrange(1, 3))
                ops.append({"op": "qn", "t": t, "checked": r.random() < 0.6})
            else: ops.append({"op": "h5", "over": r.random() < 0.5, "h": [[[k, -k], r.choice([1, -1, 2]), 0] for k in range(1, n + 1)]})
        if thermal and gf:
            # a refused construction leaves the previous atom
            smax = max(smax, spread(h, n, D)); Dmax = max(D, Dmax); alld = alld and diag
            s, D = smax, Dmax
            k = 2 if s <= 6 and r.random() < 0.6 else 1
            sub = [b for b in gf if r.random() < 0.8] or [gf[0]]
            r.shuffle(sub)
            if r.random() < 0.3: sub = [[b, r.randrange(1, m + 1)] for b, m in sub]
            ex = [list(f) for f in {tuple(fock()) for _ in range(r.randrange(1, 3))}] if alld and r.random() < 0.5 else []
            ex.sort()
            ops.append({"op": "thermal", "k": k, "D": D, "gf": sub, "ex": ex})
    if r.random() < 0.3:
        n = r.randrange(1, 3)
        t, poles = [], {}
        via = r.choice(["iw", "w"])
        for _ in range(r.randrange(0, 4)):
            i, j = r.randrange(n), r.randrange(n)
            p = r.choice([0, 0, 2, -2, 4, -6, 8] if via == "iw" else [-4, -2, -1, 0, 1, 3])
            if via == "w": p = poles.setdefault((i, j), p)
            t.append([i, j, p, r.randrange(-9, 10), r.randrange(-9, 10) if cplx else 0])
        if via == "iw": ops.append({"op": "poles", "via": "iw", "n": n, "nm": r.randrange(1, 4), "pos": r.random() < 0.4, "t": t[:2] if len({(a, b) for a, b, *_ in t}) < len(t) else t})
        else: ops.append({"op": "poles", "via": "w", "n": n, "nm": r.randrange(2, 5), "w0": r.choice([-3, -7, 1, 5]), "dw": r.choice([1, 2, 3]), "eta": r.choice([1, 2, 4]), "t": t})
    H["ops"] = ops
    return H
