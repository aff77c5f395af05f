"""C23: super-lattices, paths in k-space, Wannier90 files, patches of the Brillouin zone, lattice points."""
import sys, os, json, tempfile, shutil
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from pystub import *
# ---- stand-ins for the compiled lattice classes (their own behaviour is C22's subject)
class BravaisLattice:
    def __init__(self, units, orbital_positions=((0, 0, 0),), orbital_names=None):
        u = np.array(units, dtype=float)
        if u.ndim != 2 or u.shape[0] != u.shape[1]: raise RuntimeError("units")
        self.ndim = len(u); self.units = np.eye(3); self.units[:self.ndim, :self.ndim] = u
        self._pos = [np.array(p, dtype=float) for p in orbital_positions]
        self._names = [str(n) for n in (orbital_names if orbital_names is not None else [""] * len(self._pos))]
        if len(self._pos) != len(self._names): raise RuntimeError("names")
        for n in (orbital_names or []):
            if not isinstance(n, str): raise TypeError("name")
    n_orbitals = property(lambda s: len(s._pos))
    orbital_positions = property(lambda s: [p.copy() for p in s._pos])
    orbital_names = property(lambda s: list(s._names))
    def lattice_to_real_coordinates(self, x):
        x = np.array(x, dtype=float)
        return x[:self.ndim] @ self.units[:self.ndim]
    def __eq__(self, o): return np.array_equal(self.units, o.units) and self.ndim == o.ndim and self.n_orbitals == o.n_orbitals
class BrillouinZone:
    def __init__(self, bl): self.lattice = bl; self.units = 2 * np.pi * np.linalg.inv(bl.units).T
    def __eq__(self, o): return np.array_equal(self.units, o.units)
class TightBinding:
    def __init__(self, bl, hoppings):
        self.lattice = bl
        self.displ_vec = [np.array([int(x) for x in k]) for k in hoppings]
        self.overlap_mat_vec = [np.array(m, dtype=complex) for m in hoppings.values()]
        n = bl.n_orbitals; d = {tuple(k): m for k, m in zip(self.displ_vec, self.overlap_mat_vec)}
        for k, m in d.items():
            if len(k) != bl.ndim or m.shape != (n, n): raise RuntimeError("size")
            mk = tuple(-x for x in k)
            if mk not in d or abs(d[mk] - m.conj().T).max() > 1e-12: raise RuntimeError("not hermitian")
    def lattice_to_real_coordinates(self, x): return self.lattice.lattice_to_real_coordinates(x)
    def fourier(self, k):
        "the matrix of H(k) in reciprocal units"
        n = self.lattice.n_orbitals; r = np.zeros((n, n), complex)
        for x, m in zip(self.displ_vec, self.overlap_mat_vec): r += m * np.exp(2j * np.pi * np.dot(x, np.array(k)[:len(x)]))
        return r
    def dispersion(self, k): return np.linalg.eigvalsh(self.fourier(k))
    def __eq__(self, o): return self.lattice == o.lattice and all(np.array_equal(a, b) for a, b in zip(self.displ_vec, o.displ_vec)) and len(self.displ_vec) == len(o.displ_vec) and all(np.array_equal(a, b) for a, b in zip(self.overlap_mat_vec, o.overlap_mat_vec))
class MeshPoint:
    def __init__(self, v): self.value = np.array(v, dtype=float)
calls = []
class FakeMesh:
    def __init__(self, *a): self.args = a
package("triqs"); package("triqs.lattice")
module("h5"); module("h5.formats", register_class=lambda c: None)
module("triqs.gf", Gf=object, MeshBrZone=FakeMesh, MeshCycLat=type("MeshCycLat", (FakeMesh,), {}), MeshPoint=MeshPoint)
def dos_c(tb, nk, ne): calls.append(("dos", tb, nk, ne)); e = np.arange(ne, dtype=float); return e, np.array([[i + 10 * b for b in range(tb.n_orbitals)] for i in range(ne)], dtype=float)
def dos_patch_c(tb, tri, ne, nd): calls.append(("patch", tb, np.array(tri), ne, nd)); e = np.arange(ne, dtype=float); return e, 2 * e
module("triqs.lattice.lattice_tools", BravaisLattice=BravaisLattice, BrillouinZone=BrillouinZone, TightBinding=TightBinding, dos=dos_c, dos_patch=dos_patch_c)
class DOS:
    def __init__(self, eps, rho, name=""): self.eps, self.rho, self.name = np.array(eps), np.array(rho), name
module("triqs.dos", DOS=DOS)
T = load("triqs.lattice.tight_binding"); S = load("triqs.lattice.super_lattice"); Ut = load("triqs.lattice.utils")
P = load("triqs.lattice.point"); B = load("triqs.lattice.bz_patch")

def I(x):
    f = float(x)
    if abs(f - round(f)) > 1e-9: raise ValueError("not an integer: %r" % f)
    return int(round(f))
def rat(x, lim=20000):
    f = Fraction(float(x)).limit_denominator(lim)
    if abs(float(f) - float(x)) > 1e-9 * max(1, abs(float(x))): return [0, 0]
    return [f.numerator, f.denominator]
def zint(m): return [[[I(z.real), I(z.imag)] for z in r] for r in np.array(m, dtype=complex)]
def table(h): return [[[int(x) for x in k], zint(m)] for k, m in h.items()]
def cm(m): return np.array([[complex(*z) for z in r] for r in m])
def base(o):
    return T.TBLattice(units=o["units"], hoppings={tuple(k): cm(m) for k, m in o["hop"]}, orbital_positions=[tuple(p) for p in o["pos"]], orbital_names=o["names"])
def shape(h, lat):
    return dict(hop=table(h), pos=[[I(x) for x in p] for p in lat.orbital_positions], names=list(lat.orbital_names), units=[[I(x) for x in r] for r in lat.units], norb=lat.n_orbitals, ndim=lat.ndim)
def tower(o):
    lat = base(o)
    emit("Base", **shape(lat.hoppings, lat))
    for v in o["supers"]:
        sites = v["sites"]
        kind = v["kind"]
        if sites is not None: sites = {"list": lambda: [list(x) for x in sites], "tuple": lambda: [tuple(x) for x in sites], "array": lambda: np.array(sites), "tuples": lambda: tuple(tuple(x) for x in sites)}[kind]()
        units = np.array(v["U"]) if v["array"] else [tuple(r) for r in v["U"]]
        kw = {} if v["sites"] is None else {"cluster_sites": sites}
        if v["remove"]: kw["remove_internal_hoppings"] = True
        try: sl = S.TBSuperLattice(lat, units, **kw)
        except (ValueError, AssertionError, RuntimeError) as e:
            emit("Refused", U=v["U"], sites=v["sites"] or [], auto=v["sites"] is None); continue
        cs = [[int(x) for x in s] for s in sl.cluster_sites()]
        maps = []
        for x in v["points"]:
            R, a = sl.change_coordinates_L_to_SL(np.array(x))
            back = sl.change_coordinates_SL_to_L(R, a)
            maps.append([x, [int(k) for k in R], int(a), [int(k) for k in back]])
        packs = [[s, k, sl.pack_index_site_orbital(s, k), list(sl.unpack_index_site_orbital(sl.pack_index_site_orbital(s, k)))] for s in range(len(cs)) for k in range(lat.n_orbitals)]
        emit("Super", U=v["U"], auto=v["sites"] is None, sites=v["sites"] or [], cs=cs, remove=v["remove"], maps=maps, packs=packs, ncs=sl.Ncluster_sites, **shape(sl.hoppings, sl))
        # folding of any other function
        D = {tuple(k): np.array(m) for k, m in v["fold"]}
        if D:
            made = []
            def cz(): made.append(1); return np.zeros((sl.Norb, sl.Norb), dtype=int)
            F = sl.fold(D, **({"create_zero": cz} if v["cz"] else {}), **({"remove_internal": True} if v["frem"] else {}))
            emit("Fold", U=v["U"], cs=cs, t=[[list(k), zint(m)] for k, m in D.items()], F=table(F), remove=v["frem"], cz=v["cz"], made=len(made))
        # the same model in k-space: eigenvalues of the base model at all k that fold onto K
        if o["k"] and not v["remove"]:
            M = np.array(v["U"], dtype=float); K = np.array([a / b for a, b in v["K"]])
            n = len(cs); d = lat.ndim
            ev = []
            for m in np.ndindex(*([n] * d)):  # k = U^-1 (K + m), distinct modulo 1
                k = np.linalg.solve(M, K + np.array(m)) % 1.0
                k[np.abs(k - 1) < 1e-9] = 0
                if not any(np.abs(((k - q + .5) % 1) - .5).max() < 1e-7 for q, _ in ev): ev.append((k, lat.tb.fourier(k)))
            e1 = np.sort(np.concatenate([np.linalg.eigvalsh(h) for _, h in ev])); e2 = np.linalg.eigvalsh(sl.tb.fourier(K))
            emit("Bands", n=n, nk=len(ev), same=bool(len(e1) == len(e2) and np.abs(e1 - e2).max() < 1e-8))
        lat = sl
def run(o):
    op = o["op"]
    if op == "tower": tower(o)
    elif op == "copy":
        import copy, pickle
        sl = S.TBSuperLattice(base(o), o["U"], cluster_sites=o["sites"], remove_internal_hoppings=o["remove"]) if o["sites"] else S.TBSuperLattice(base(o), o["U"], remove_internal_hoppings=o["remove"])
        c2 = copy.copy(sl) if o["how"] == "copy" else pickle.loads(pickle.dumps(sl))
        emit("Same", a=dict(cs=[[int(x) for x in s] for s in sl.cluster_sites()], **shape(sl.hoppings, sl)), b=dict(cs=[[int(x) for x in s] for s in c2.cluster_sites()], **shape(c2.hoppings, c2)), eq=bool(sl == c2))
    elif op == "dict":
        lat = base(o); d = lat.__reduce_to_dict__(); l2 = T.TBLattice.__factory_from_dict__("TBLattice", d)
        o2 = dict(o); other = None
        if o["other"] is not None: other = base(o["other"])
        emit("Same", a=dict(cs=[], **shape(lat.hoppings, lat)), b=dict(cs=[], **shape(l2.hoppings, l2)), eq=bool(lat == l2))
        if other is not None: emit("Eq", a=shape(lat.hoppings, lat), b=shape(other.hoppings, other), r=bool(lat == other), ne=bool(lat == 3))
        m = lat.get_kmesh(o["n"]); r = lat.get_rmesh(o["n"])
        emit("Meshes", ok=bool(m.args[0] is lat.bz and m.args[1] == o["n"] and r.args[0] is lat.bl and r.args[1] == o["n"]))
    elif op == "path":
        bz = None
        if o["cell"]: bz = type("Z", (), {"units": np.array(o["cell"], dtype=float)})()
        seg = [(np.array(a), tuple(b)) if o["mix"] else (tuple(a), list(b)) for a, b in o["seg"]]
        k, d, t = Ut.k_space_path(seg, num=o["num"], bz=bz, **({} if o["rel"] else {"relative_coordinates": False}))
        emit("Path", seg=o["seg"], num=o["num"], cell=o["cell"] or [[1, 0, 0], [0, 1, 0], [0, 0, 1]], rel=o["rel"], k=[[rat(x) for x in r] for r in k], d=[rat(x) for x in d], t=[rat(x) for x in t])
    elif op == "w90":
        d = tempfile.mkdtemp(prefix="w90")
        try:
            n = o["n"]
            with open(d + "/s_hr.dat", "w") as f:
                f.write(" written on 20Nov2026 at 01:02:03\n%12d\n%12d\n" % (n, len(o["R"])))
                for q in range(0, len(o["R"]), 15): f.write("".join("%5d" % x for x in o["deg"][q:q + 15]) + "\n")
                for R, m in zip(o["R"], o["H"]):
                    for b in range(n):
                        for a in range(n): f.write("%5d%5d%5d%5d%5d%12.6f%12.6f\n" % (*R, a + 1, b + 1, m[a][b][0] / 8, m[a][b][1] / 8))
            with open(d + "/s.wout", "w") as f:
                f.write(" blah\n  Final State\n                              Lattice Vectors (%s)\n" % o["unit"])
                for i in range(3): f.write("                    a_%d  %11.6f%11.6f%11.6f\n" % (i + 1, *o["units"][i]))
                f.write("\n   Unit Cell Volume:   8 (Ang^3)\n")
            kw = {}
            if o["spin"]: kw["extend_to_spin"] = True
            nn = n * (2 if o["spin"] else 1)
            if o["hasadd"]: kw["add_local"] = cm(o["add"])
            try: lat = Ut.TB_from_wannier90("s", path=d + "/", **kw)
            except (RuntimeError, NotImplementedError, OSError): emit("W90", refused=True, src=o); return
            sc = 1.0 if o["unit"] == "Ang" else 0.5291772105638411
            emit("W90", refused=False, src=o, hop=[[[int(x) for x in k], [[[rat(z.real), rat(z.imag)] for z in r] for r in m]] for k, m in lat.hoppings.items()], units=[[rat(x / sc) for x in r] for r in lat.units],
                 names=list(lat.orbital_names), norb=lat.n_orbitals, pos=[[I(x) for x in p] for p in lat.orbital_positions])
        finally: shutil.rmtree(d)
    elif op == "pythtb":
        class M: pass
        m = M(); m.get_num_orbitals = lambda: o["n"]; m._site_energies = np.array(o["site"], dtype=float)
        m._hoppings = [[complex(*h), a, b, np.array(R)] for h, a, b, R in o["h"]]
        m.get_lat = lambda: np.array(o["units"], dtype=float); m.get_orb = lambda: np.array(o["orb"], dtype=float)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore"); lat = Ut.TB_from_pythTB(m)
        emit("PythTB", src=o, **shape(lat.hoppings, lat))
    elif op == "patch":
        p = B.BZPatch("name", [[tuple(x) for x in poly] for poly in o["poly"]])
        calls.clear(); tb = object(); r = p.dos(tb, 4, 3)
        c = calls[0]
        emit("Patch", poly=o["poly"], weight=rat(p.weight), tri=[[I(x) for x in v] for v in c[2]], ok=bool(c[0] == "patch" and c[1] is tb and c[3] == 4 and c[4] == 3 and r.name == "name" and list(r.eps) == [0, 1, 2, 3] and list(r.rho) == [0, 2, 4, 6]), ws=[rat(w) for w in p._weights])
    elif op == "point":
        lat = BravaisLattice(o["units"]); a = P.LatticePoint(o["a"], lat); b = P.LatticePoint(o["b"], lat); s = o["s"]; v = np.array(o["v"], dtype=float); mp = MeshPoint(v)
        val = lambda x: [I(y) for y in np.array(x)]
        idx = lambda x: [int(y) for y in x.index]
        emit("Point", units=[[I(x) for x in r] for r in lat.units], a=o["a"], b=o["b"], s=s, v=o["v"], value=val(a.value), add=idx(a + b), sub=idx(a - b), neg=idx(-a), sum=val(a + b), mul=val(a * s), rmul=val(s * a), addv=val(a + v), raddv=val(v + a), radd=val(a.__radd__(v)),
             subv=val(a - v), rsub=val(a.__rsub__(v)), addm=val(a + mp), div=[rat(x) for x in a / 4], item=[I(a[k]) for k in range(3)], len=len(a), isp=[isinstance(x, P.LatticePoint) for x in (a + b, a - b, -a)], same=a.lattice is lat and (a + b).lattice is lat)
    elif op == "dos":
        class TB: n_orbitals = o["n"]
        calls.clear(); tb = TB(); r = T.dos(tb, o["nk"], 3, "nm")
        emit("Dos", n=o["n"], nk=o["nk"], ok=bool(calls[0][1] is tb and calls[0][2] == o["nk"] and calls[0][3] == 3), r=[[int(x) for x in d.rho] for d in r], eps=[[int(x) for x in d.eps] for d in r], names=[d.name for d in r])
for line in sys.stdin:
    h = json.loads(line)
    emit("Reset")
    for o in h["ops"]: run(o)
