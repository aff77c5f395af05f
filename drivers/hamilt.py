"""Interaction Hamiltonians, observables and Coulomb tensors (triqs/operators/util/*.py)."""
import sys, json, os, tempfile, itertools, warnings
from fractions import Fraction
import numpy as np
from pystub import *
import manybody as mb
warnings.simplefilter("ignore")
package("triqs"); package("triqs.operators")
names = dict(Operator=mb.Operator, c=mb.c, c_dag=mb.c_dag, n=mb.n, dagger=mb.dagger)
module("triqs.operators.operators", **names)
for k, v in names.items(): setattr(sys.modules["triqs.operators"], k, v)
sys.modules["triqs.operators"].__all__ = list(names)
package("triqs.operators.util")
ops = load("triqs.operators.util.op_struct"); U = load("triqs.operators.util.U_matrix")
ham = load("triqs.operators.util.hamiltonians"); obs = load("triqs.operators.util.observables")
BAD = -2147480000
def integer(x, s=4): r = round(float(x) * s); return r if abs(float(x) * s - r) < 1e-8 else BAD
def name(i): return ":".join(str(x) for x in i)
def terms(F, s=4):
    out = []
    for m, z in F:
        z = complex(z)
        out.append([[[bool(d), name(i)] for d, i in m], integer(z.real, s), integer(z.imag, s)])
    return out
def rat(x, maxden=10 ** 6):
    f = Fraction(float(x)).limit_denominator(maxden)
    return [f.numerator, f.denominator] if abs(float(f) - float(x)) < 1e-11 * max(1, abs(float(x))) else [0, 0]
def ss(x): x = float(x); return [0, [0, 1]] if abs(x) < 1e-12 else [1 if x > 0 else -1, rat(x * x)]
def gauss4(u): return np.array([[[[complex(*z) for z in r] for r in q] for q in p] for p in u])
def kw(o):
    k = {} if o["off"] is None else {"off_diag": o["off"]}
    if o["map"] is not None: k["map_operator_structure"] = {(s, i): tuple(o["map"][a * o["n"] + i]) for a, s in enumerate(o["spins"]) for i in range(o["n"])}
    return k
def heads(o): return dict(spins=o["spins"], n=o["n"], kind="map" if o["map"] is not None else "spin" if o["off"] else "orb", map=[name(x) for x in o["map"]] if o["map"] is not None else [])
def lines(path): return [l.rstrip("\n").split("\t") for l in open(path)]
def run(o):
    op = o["op"]; mk = lambda: ops.get_mkind(o["off"], kw(o).get("map_operator_structure"))
    if op in ("slater", "kanamori", "density"):
        d = tempfile.mkdtemp(prefix="ham"); path = os.path.join(d, "H"); dump = {"H_dump": path} if o["dump"] else {}
        arg = list(range(o["n"])) if o["list"] else o["n"]
        try:
            if op == "slater": H = ham.h_int_slater(o["spins"], arg, gauss4(o["U"]), complex=o["cx"], **kw(o), **dump)
            elif op == "kanamori": H = ham.h_int_kanamori(o["spins"], arg, np.array(o["U"], float), np.array(o["Up"], float), o["J"], **kw(o), **dump)
            else: H = ham.h_int_density(o["spins"], arg, np.array(o["U"], float), np.array(o["Up"], float), **kw(o), **dump)
            r = terms(H); thrown = False
        except RuntimeError as e: r, thrown = [], True
        dumped = r
        if o["dump"] and not thrown: dumped = terms(read_dump(path))
        if os.path.exists(path): os.unlink(path)
        os.rmdir(d)
        emit(op.capitalize(), **heads(o), **{k: o[k] for k in ("U", "Up", "J", "cx") if k in o}, r=r, thrown=thrown, dumped=dumped)
    elif op == "obs":
        w = o["what"]
        a = dict(**kw(o))
        if w == "N": F = obs.N_op(o["spins"], o["n"], **a)
        elif w == "S2": F = obs.S2_op(o["spins"], o["n"], **a)
        else: F = obs.S_op(w, o["spins"], o["n"], **a)
        emit("Obs", **heads(o), what=w, r=terms(F))
    elif op == "L":
        b = {"basis": o["basis"]}
        if o["basis"] == "other": b["T"] = np.array([[complex(*z) for z in r] for r in o["T"]])
        F = obs.L_op(o["what"], o["spins"], o["n"], **kw(o), **b)
        out = []
        for m, z in F:
            z = complex(z); out.append([[[bool(d), name(i)] for d, i in m], ss(2 * z.real), ss(2 * z.imag)])
        emit("L", **heads(o), what=o["what"], basis=o["basis"], r=out)
    elif op == "algebra":
        b = {"basis": o["basis"]}
        if o["basis"] == "other": b["T"] = U.spherical_to_cubic((o["n"] - 1) // 2, "wannier90")
        S = {k: obs.S_op(k, o["spins"], o["n"], **kw(o)) for k in "xyz+-"}
        L = {k: obs.L_op(k, o["spins"], o["n"], **kw(o), **b) for k in "xyz+-"}
        S2, L2, LS = obs.S2_op(o["spins"], o["n"], **kw(o)), obs.L2_op(o["spins"], o["n"], **kw(o), **b), obs.LS_op(o["spins"], o["n"], **kw(o), **b)
        com = lambda a, b: a * b - b * a
        dot = lambda a, b: a["x"] * b["x"] + a["y"] * b["y"] + a["z"] * b["z"]
        J = {k: L[k] + S[k] for k in "xyz"}
        N = obs.N_op(o["spins"], o["n"], **kw(o)); l = (o["n"] - 1) / 2
        one = lambda F: mb.Operator.of({m: z for m, z in F.t.items() if len(m) == 2})
        res = {"[Lx,Ly]=iLz": com(L["x"], L["y"]) - 1j * L["z"], "[Ly,Lz]=iLx": com(L["y"], L["z"]) - 1j * L["x"], "[Lz,Lx]=iLy": com(L["z"], L["x"]) - 1j * L["y"],
               "L+=Lx+iLy": L["+"] - L["x"] - 1j * L["y"], "L-=Lx-iLy": L["-"] - L["x"] + 1j * L["y"], "Lx hermitian": mb.dagger(L["x"]) - L["x"], "Ly hermitian": mb.dagger(L["y"]) - L["y"],
               "L2": L2 - dot(L, L), "LS": LS - dot(L, S), "L2 on one particle": one(L2) - l * (l + 1) * N, "[L,S]": com(L["x"], S["y"]), "S+=Sx+iSy": S["+"] - S["x"] - 1j * S["y"],
               "[L2,Lz]": com(L2, L["z"]) if o["n"] <= 3 else mb.Operator(), "[LS,Jz]": com(LS, J["z"]), "[LS,Jx]": com(LS, J["x"])}
        emit("Algebra", bad=[k for k, F in res.items() if any(abs(z) > 1e-9 for _, z in F)], n=o["n"], basis=o["basis"])
    elif op == "diag":
        H = build(o["t"]); r = ham.diagonal_part(H)
        emit("Diag", **heads(o), H=terms(H, 1), r=terms(r, 1))
    elif op == "real":
        H = build(o["t"])
        try: r, thrown = terms(ham.make_operator_real(H, **({"tol": o["tol"]} if o["tol"] else {})), 1), False
        except RuntimeError: r, thrown = [], True
        emit("Real", **heads(o), H=terms(H, 1), r=r, thrown=thrown, tol=o["tol"])
    elif op == "struct":
        st = ops.set_operator_structure(o["spins"], list(range(o["n"])) if o["list"] else o["n"], o["off"])
        try: ops.get_mkind(None, None); none = False
        except ValueError: none = True
        emit("Struct", **heads(o), st=[[b, int(s)] for b, s in st], kinds=[name(mk()(s, i)) for s in o["spins"] for i in range(o["n"])], refused=none)
    elif op == "kanU":
        k = {} if o["Up"] is None else {"Up_int": o["Up"]}
        a, b = U.U_matrix_kanamori(o["n"], o["U"], o["J"], **k)
        k4 = dict(k, full_Uijkl=True); 
        if o["Jc"] is not None: k4["Jc_hund"] = o["Jc"]
        f = U.U_matrix_kanamori(o["n"], o["U"], o["J"], **k4)
        ra, rb = U.reduce_4index_to_2index(f)
        ii = lambda x: [ii(y) for y in x] if np.ndim(x) else integer(x, 1)
        try: U.U_matrix_kanamori(o["n"], 1, 1, Jc_hund=2); refused = False
        except ValueError: refused = True
        up = o["U"] - 2 * o["J"] if o["Up"] is None else o["Up"]
        emit("KanU", n=o["n"], U=o["U"], J=o["J"], Up=up, given=o["Up"] is not None, Jc=o["J"] if o["Jc"] is None else o["Jc"], a=ii(a), b=ii(b), f=ii(f), ra=ii(ra), rb=ii(rb), refused=refused)
    elif op == "reduce":
        a, b = U.reduce_4index_to_2index(gauss4(o["U"])); n = len(a)
        emit("Reduce", n=n, U=o["U"], a=[[integer(x, 1) for x in r] for r in a], b=[[integer(x, 1) for x in r] for r in b])
    elif op == "transform":
        T = np.array([[complex(*z) for z in r] for r in o["T"]])
        V = U.transform_U_matrix(gauss4(o["U"]), T)
        emit("Transform", n=len(T), T=o["T"], U=o["U"], V=[[[[[integer(z.real, 1), integer(z.imag, 1)] for z in r] for r in q] for q in p] for p in V])
    elif op == "sub":
        n = o["n"]; A = np.arange(n ** o["rank"]).reshape((n,) * o["rank"])
        f = {"t2g": U.t2g_submatrix, "eg": U.eg_submatrix}[o["which"]]
        try: B, thrown = f(A, **({"convention": o["conv"]} if o["conv"] else {})), False
        except ValueError: B, thrown = np.zeros((0,)), True
        emit("Sub", which=o["which"], conv=o["conv"] or "triqs", rank=o["rank"], shape=list(B.shape), flat=[int(x) for x in B.flatten()], thrown=thrown)
    elif op == "cubic":
        k = {"convention": o["conv"]} if o["conv"] else {}
        try: T, thrown = U.spherical_to_cubic(o["l"], **k), False
        except ValueError: T, thrown = np.zeros((0, 0)), True
        emit("Cubic", l=o["l"], conv=o["conv"] or "triqs", T=[[[ss(z.real), ss(z.imag)] for z in r] for r in T], thrown=thrown, names=list(U.cubic_names(o["l"])) if 0 < o["l"] < 4 else ["s"])
    elif op == "3j":
        a = o["a"]; p = [(a[0], a[1]), (a[2], a[3]), (a[4], a[5])]
        q = [(a[0], a[1]), (a[2], a[3]), (a[4], -a[5])]
        emit("ThreeJ", a=a, r=ss(U.three_j_symbol(*p)), g=ss(U.clebsch_gordan(*q)))
    elif op == "alpha":
        a = o["a"]; v = U.angular_matrix_element(*a)
        emit("Alpha", a=a, r=ss(v) if o["sq"] else [0, [0, 1]], d=rat(v) if o["rational"] else [0, 1], sq=o["sq"], rational=o["rational"])
    elif op == "UJ":
        l = o["l"]; F = U.U_J_to_radial_integrals(l, o["U"], o["J"]); back = U.radial_integrals_to_U_J(l, F)
        f2 = [float(x) for x in o["F"]]; there = U.U_J_to_radial_integrals(l, *U.radial_integrals_to_U_J(l, f2))
        # the ratios of the higher integrals, and the definition of U and J through the tensor
        V = U.U_matrix_slater(l, radial_integrals=F); W = U.U_matrix_slater(l, U_int=o["U"], J_hund=o["J"])
        n = 2 * l + 1
        Ud = sum(V[a, b, a, b] for a in range(n) for b in range(n)) / n ** 2
        UJ = sum(V[a, b, a, b] - V[a, b, b, a] for a in range(n) for b in range(n)) / (n * (n - 1))
        emit("UJ", l=l, U=o["U"], J=o["J"], back=[rat(back[0]), rat(back[1])], F0=rat(F[0]), ratios=[rat(F[i] / F[1]) if o["J"] else [0, 0] for i in range(1, l + 1)], len=len(F), same=bool(np.abs(V - W).max() < 1e-12),
             Uavg=rat(Ud), UmJ=rat(UJ), there=[rat(there[0]), rat(there[1])], F=o["F"])
    elif op == "slaterU":
        l = o["l"]; n = 2 * l + 1
        V = U.U_matrix_slater(l, radial_integrals=o["F"])
        C = U.U_matrix_slater(l, radial_integrals=o["F"], basis="cubic")
        T = U.spherical_to_cubic(l); W = U.U_matrix_slater(l, radial_integrals=o["F"], basis="other", T=T)
        sym = lambda X: bool(np.abs(X - X.transpose(1, 0, 3, 2)).max() < 1e-10) and bool(np.abs(X - X.conj().transpose(2, 3, 0, 1)).max() < 1e-10)
        inv = [rat(sum(X[a, b, a, b] for a in range(n) for b in range(n)).real / n ** 2) for X in (V, C)] + [rat(sum(X[a, b, b, a] for a in range(n) for b in range(n)).real / n) for X in (V, C)]
        m2 = [rat((np.abs(X) ** 2).sum() - (np.abs(V) ** 2).sum()) for X in (C, W)]
        try: U.U_matrix_slater(l, basis="cubic"); r1 = False
        except ValueError: r1 = True
        try: U.U_matrix_slater(l, radial_integrals=o["F"], basis="other"); r2 = False
        except ValueError: r2 = True
        q = [[[int(i), int(j), int(k), int(m)] for i, j, k, m in itertools.product(range(n), repeat=4) if abs(V[i, j, k, m]) > 1e-12 and i + j != k + m]]
        emit("SlaterU", l=l, F=o["F"], dir=[[rat(V[a, b, a, b]) for b in range(n)] for a in range(n)], exc=[[rat(V[a, b, b, a]) for b in range(n)] for a in range(n)], sym=sym(V) and sym(C), real=bool(np.abs(np.imag(C)).max() < 1e-10),
             inv=inv, m2=m2, refused=r1 and r2, broken=q[0], same=bool(np.abs(C - W).max() < 1e-12))
def build(t):
    H = mb.Operator()
    for m, re, im in t:
        X = mb.Operator(complex(re, im))
        for d, i in m: X = X * (mb.c_dag(*i) if d else mb.c(*i))
        H = H + X
    return H
def read_dump(path):
    import ast
    H, sec = mb.Operator(), None
    for l in lines(path):
        if len(l) == 1: sec = l[0]; continue
        k = [ast.literal_eval(x) for x in l[:-1]]; v = complex(l[-1].replace("+-", "-"))
        if sec.startswith("Slater"): H = H + 0.5 * v * mb.c_dag(*k[0]) * mb.c_dag(*k[1]) * mb.c(*k[2]) * mb.c(*k[3])
        elif sec.startswith("Density"): H = H + 0.5 * v * mb.n(*k[0]) * mb.n(*k[1])
        else:
            (s1, a1), (s2, a2) = WHO[name(k[0])], WHO[name(k[1])]
            i11, i21, i22, i12 = [INV[x] for x in ((s1, a1), (s2, a1), (s2, a2), (s1, a2))]
            if sec.startswith("Spin-flip"): H = H + 0.5 * v * mb.c_dag(*i11) * mb.c(*i21) * mb.c_dag(*i22) * mb.c(*i12)
            else: H = H + 0.5 * v * mb.c_dag(*i11) * mb.c_dag(*i21) * mb.c(*i22) * mb.c(*i12)
    return H
WHO, INV = {}, {}
for line in sys.stdin:
    H = json.loads(line)
    emit("Reset")
    for o in H["ops"]:
        if "spins" in o:
            WHO.clear(); INV.clear()
            for a, s in enumerate(o["spins"]):
                for i in range(o["n"]):
                    x = tuple(o["map"][a * o["n"] + i]) if o["map"] is not None else (s, i) if o["off"] else ("%s_%d" % (s, i), 0)
                    WHO[name(x)] = (s, i); INV[(s, i)] = x
        run(o)
