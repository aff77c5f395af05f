"""C24, C25, C26: the Python Gf layer.  Reads one history (a list of JSON operations) per line and reports the state of all registers after each."""
import sys, os, json, pickle, operator, warnings, random
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from pystub import *
warnings.simplefilter("ignore")
OUT, sys.stdout = sys.stdout, sys.stderr  # what the library prints is not part of the trace
def emit(e, **k): OUT.write(json.dumps(dict(e=e, **k), separators=(",", ":")) + "\n"); OUT.flush()
# ---- stand-ins for the compiled parts
package("triqs"); package("triqs.plot"); package("triqs.gf"); package("triqs.gf.backwd_compat")
module("h5"); module("h5.formats", register_class=lambda *a, **k: None, register_backward_compatibility_method=lambda *a, **k: None)
module("triqs.plot.protocol", clip_array=lambda *a: None)
MP = load("triqs.gf.mesh_point"); MeshPoint = MP.MeshPoint
class Mesh_:
    st = ""
    def __init__(self, v, st=""): self.v = tuple(v); self.st = st
    def __len__(self): return len(self.v)
    def copy(self): return type(self)(self.v, self.st)
    def copy_from(self, o): self.v, self.st = o.v, o.st
    def __eq__(self, o): return type(self) is type(o) and self.v == o.v and self.st == o.st
    mesh_hash = property(lambda s: hash((type(s).__name__, s.v, s.st)) & 0xffffffff)
    first = 0
    def __iter__(self): return (MeshPoint(k + self.first, k, self.mesh_hash, x) for k, x in enumerate(self.v))
    def to_data_index(self, i):
        if not self.first <= i < self.first + len(self.v): raise RuntimeError("index out of the mesh")
        return i - self.first
    statistic = property(lambda s: {"F": "Fermion", "B": "Boson"}[s.st])
    def first_index(self): return self.first
    def last_index(self): return self.first + len(self.v) - 1
    def __call__(self, i): return self.v[i - self.first]
def mesh_class(name, base=Mesh_, **k):
    c = type(name, (base,), dict(k)); c.__module__ = "triqs.gf.meshes"; return c
MeshImFreq = mesh_class("MeshImFreq", first=property(lambda s: -(len(s.v) // 2)), positive_only=lambda s: False)
MeshDLRImFreq = mesh_class("MeshDLRImFreq"); MeshReFreq = mesh_class("MeshReFreq"); MeshReTime = mesh_class("MeshReTime"); MeshLegendre = mesh_class("MeshLegendre")
class MeshImTime(Mesh_):
    def __init__(self, beta, S, n): Mesh_.__init__(self, [float(k * beta / (n - 1)) for k in range(n)], S[0]); self.beta = beta
    def copy(self): return MeshImTime(self.beta, self.statistic, len(self))
MeshImTime.__module__ = "triqs.gf.meshes"
KIND = dict(ImFreq=MeshImFreq, ReFreq=MeshReFreq, DLRImFreq=MeshDLRImFreq, ImTime=MeshImTime, ReTime=MeshReTime, Legendre=MeshLegendre)
meshes = module("triqs.gf.meshes", **{c.__name__: c for c in KIND.values()})
module("triqs.gf.plot", dispatcher=None)
def density(g, *a, **k): return np.zeros(g.target_shape)
def set_from_fourier(g, h, *a, **k): g.data[...] = 2 * h.data  # a stand-in: the transformation itself is the subject of C18
def is_gf_hermitian(g, *a): return True
module("triqs.gf.gf_fnt", density=density, set_from_fourier=set_from_fourier, is_gf_hermitian=is_gf_hermitian)
def legacy(sign):
    "gf_view<imfreq or refreq, matrix_valued> += matrix or number (legacy_for_python_api.hpp)"
    def f(x, y):
        if type(x.mesh) not in (MeshImFreq, MeshReFreq) or x.target_rank != 2 or x.data.dtype != np.complex128: raise TypeError("no overload")
        if isinstance(y, np.ndarray):
            if y.ndim != 2 or y.shape != x.target_shape: raise TypeError("no overload")
            x.data[...] += sign * y
        elif isinstance(y, (int, float, complex, np.number)): x.data[...] += sign * y * np.eye(x.target_shape[0])
        else: raise TypeError("no overload")
    return f
def invert_in_place(d):
    if d.ndim != 3 or d.dtype != np.complex128: raise TypeError("no overload")
    d[...] = np.linalg.inv(d)
def mul_LR(a, l, b, r):
    if len({a.dtype, b.dtype}) != 1 or (a.dtype == np.float64 and (np.iscomplexobj(l) or np.iscomplexobj(r))): raise TypeError("no overload")
    for u in range(a.shape[0]): a[u] = l @ b[u] @ r
module("triqs.gf.wrapped_aux", _iadd_g_matrix_scalar=legacy(1), _isub_g_matrix_scalar=legacy(-1), _gf_invert_data_in_place=invert_in_place, set_from_gf_data_mul_LR=mul_LR)
module("triqs.gf.gf_factories", make_hermitian=lambda g: g); module("triqs.gf.backwd_compat.gf_refreq", GfReFreq=None)
for n in ("mesh_product", "lazy_expressions", "descriptor_base", "descriptors", "gf", "block_gf", "block2_gf", "map_block", "tools"): load("triqs.gf." + n)
T = sys.modules
Gf, Idx, BlockGf, Block2Gf, MeshProduct = T["triqs.gf.gf"].Gf, T["triqs.gf.gf"].Idx, T["triqs.gf.block_gf"].BlockGf, T["triqs.gf.block2_gf"].Block2Gf, T["triqs.gf.mesh_product"].MeshProduct
lazy, desc, tools, map_block = T["triqs.gf.lazy_expressions"], T["triqs.gf.descriptors"], T["triqs.gf.tools"], T["triqs.gf.map_block"].map_block
Omega = desc.Omega
# ---- numbers
def cx(z): return complex(z[0][0] / z[0][1], z[1][0] / z[1][1])
def rat(x):
    x = float(x)
    if not np.isfinite(x): return [999999, 1]
    f = Fraction(x).limit_denominator(4000)
    if abs(float(f) - x) > 1e-9 * max(1, abs(x)): f = Fraction(round(x * 2**20) if abs(x) < 1000 else 999999, 2**20)
    return [f.numerator, f.denominator] if abs(f.numerator) < 2**31 else [999999, 1]
def enc(z): z = complex(z); return [rat(z.real), rat(z.imag)]
rng = random.Random(1)
def number(z, real):
    z = cx(z)
    if z.imag: return rng.choice([complex, np.complex128])(z)
    z = z.real
    kinds = [float, np.float64] + ([complex, np.complex128] if not real else []) + ([int, np.int64] if z == int(z) else [])
    return rng.choice(kinds)(z)
def array(d, shape, real=None):
    a = np.array([cx(z) for z in d]).reshape(shape)
    if real or (real is None and not a.imag.any()): a = a.real.copy()
    if rng.random() < 0.3: a = np.asfortranarray(a)
    elif rng.random() < 0.2: b = np.zeros(a.shape + (2,), a.dtype); b[..., 1] = a; a = b[..., 1]
    return a
def component(m):
    v = [cx(z) for z in m["v"]]
    if m["k"] == "ImTime": return MeshImTime((v[-1] - v[0]).real, {"F": "Fermion", "B": "Boson"}[m["st"]], len(v))
    if m["k"] == "ReFreq": v = [x.real for x in v]
    return KIND[m["k"]](v, m["st"])
def mesh(m): return component(m[0]) if len(m) == 1 else MeshProduct(*[component(c) for c in m])
def comps(m): return list(m.components) if isinstance(m, MeshProduct) else [m]
def obs_mesh(m): return [dict(k=type(c).__name__[4:], st=c.st, v=[enc(z) for z in c.v]) for c in comps(m)]
def obs_gf(g):
    ok = g.target_shape == g.data.shape[g.rank:] and g.target_rank == len(g.target_shape) and g.rank == len(comps(g.mesh)) and list(g.target_indices) == list(np.ndindex(*g.target_shape))
    return dict(mesh=obs_mesh(g.mesh), shape=list(g.target_shape) if ok else [-1], real=bool(g.data.dtype == np.float64), d=[enc(z) for z in g.data.reshape(-1)])
def obs(r):
    if r is None: return dict(t="none")
    if type(r) is Gf: return dict(t="gf", v=obs_gf(r))
    if type(r) not in (BlockGf, Block2Gf): return dict(t="other", what=type(r).__name__)
    it = list(r); two = type(r) is Block2Gf
    keys = [k for k, g in it]
    ok = list(r.indices) == keys and len(r) == len(it) == r.n_blocks and all(r[k] is g for k, g in it)
    if two: ok = ok and keys == [(a, b) for a in r.indices1 for b in r.indices2]
    ks = [",".join(k) if two else k for k in keys]
    d = dict(t="blk2" if two else "blk", keys=ks if ok else ks + ["inconsistent"], vs=[obs_gf(g) for k, g in it])
    try: d["ai"] = [",".join(map(str, t)) for t in r.all_indices]
    except Exception: d["ai"] = ["failed"]
    if two: d["n1"] = list(r.indices1); d["n2"] = list(r.indices2)
    return d
# ---- operations
regs = {}
def expr(e, top=True):
    o = e["o"]
    if o == "reg": g = regs[e["r"]]; return lazy.LazyExpr(g) if rng.random() < 0.7 or type(g.mesh) is MeshDLRImFreq else g
    if o == "om": return Omega
    if o == "num": return number(e["z"], False)
    if o == "inv": return tools.inverse(expr(e["l"]))
    if o == "conj": return tools.conjugate(expr(e["l"]))
    if o == "tr": return tools.transpose(expr(e["l"]))
    return {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}[o](expr(e["l"]), expr(e["r"]))
def lazily(a):
    e = expr(a["e"]); text = str(e)
    if a.get("str") and isinstance(e, (lazy.LazyExpr, lazy.LazyExprTerminal)):
        if "+ " in text or "- " in text or "* " in text or "/ " in text or "(" in text: return eval(text, dict(Omega=Omega, inverse=tools.inverse, conjugate=tools.conjugate, transpose=tools.transpose))
    return e
def arg(a, x=None):
    k = a["a"]
    if k in ("reg", "blk"): return regs[a["r"]]
    if k == "num": return number(a["z"], type(x) is Gf and x.data.dtype == np.float64)
    if k == "mat": return array(a["d"], a["sh"])
    if k == "list": return [arg(b, x) for b in a["l"]]
    return lazily(a)
def key(ks):
    t = tuple(slice(k["i"], k["j"]) if k["s"] else k["i"] for k in ks)
    return t[0] if len(t) == 1 else t
def points(g, ks, form):
    cs = comps(g.mesh)
    if form[0] == "idx1" and all(k >= 0 for k in ks): return Idx(*[k + c.first for k, c in zip(ks, cs)])
    def one(c, k, f): return slice(None) if k < 0 else list(c)[k] if f == "mp" else Idx(k + c.first)
    t = tuple(one(c, k, f) for c, k, f in zip(cs, ks, form))
    return t[0] if len(t) == 1 else t
BIN = dict(add=operator.add, sub=operator.sub, mul=operator.mul, div=operator.truediv, iadd=operator.iadd, isub=operator.isub, imul=operator.imul, idiv=operator.itruediv)
def k2(b, k): return tuple(k.split(",")) if type(b) is Block2Gf else k
def run(op):
    o = op["o"]; x = regs.get(op.get("x")); out = {}
    def bind(v): regs[op["d"]] = v
    def inplace(f, a):
        r = f(x, a)
        if r is not x: regs[op["x"]] = r
    if o == "new":
        m = mesh(op["mesh"]); ls = [len(c) for c in comps(m)]; a = array(op["dat"], ls + list(op["shape"]), op["real"]); a = a.copy() if op["real"] else a.astype(complex)
        if rng.random() < 0.5: bind(Gf(mesh=m, data=a))
        else: g = Gf(mesh=m, target_shape=list(op["shape"]), is_real=op["real"]); g.data[...] = a; bind(g)
    elif o == "mkdelta": bind(tools.make_delta(np.array([[cx(z) for z in row] for row in op["V"]]), [p / q for p, q in op["eps"]] if rng.random() < 0.5 else np.array([p / q for p, q in op["eps"]]), mesh(op["mesh"])))
    elif o == "copy": bind(x.copy())
    elif o in ("pickle", "bpickle"): bind(pickle.loads(pickle.dumps(x)))
    elif o in ("add", "sub", "mul", "div"): a = arg(op["a"], x); bind(x @ a if op.get("at") else BIN[o](x, a))
    elif o in ("radd", "rsub", "rmul"): a = arg(op["a"], x); bind(a @ x if op.get("at") and isinstance(a, np.ndarray) else BIN[o[1:]](a, x))
    elif o in ("iadd", "isub", "imul", "idiv"): a = arg(op["a"], x); inplace(operator.imatmul if op.get("at") else BIN[o], a)
    elif o == "neg": bind(-x)
    elif o == "conj": bind(x.conjugate() if rng.random() < 0.5 else tools.conjugate(x))
    elif o == "transp": bind(x.transpose() if rng.random() < 0.5 else tools.transpose(x))
    elif o == "inverse": bind(x.inverse() if rng.random() < 0.5 else tools.inverse(x))
    elif o in ("invert", "binvert"): x.invert()
    elif o in ("zero", "bzero"): x.zero()
    elif o in ("real", "breal"): bind(x.real)
    elif o in ("imag", "bimag"): bind(x.imag)
    elif o == "tslice": bind(x[key(op["key"])])
    elif o == "mslice": bind(x[points(x, op["key"], op["form"])])
    elif o == "getpt": out["val"] = [enc(z) for z in np.asarray(x[points(x, op["key"], op["form"])]).reshape(-1)]
    elif o == "setpt": x[points(x, op["key"], op["form"])] = array(op["dat"], x.target_shape, x.data.dtype == np.float64)
    elif o == "setpte": x[points(x, op["key"], op["form"])][np.unravel_index(op["t"], x.target_shape)] = array(op["dat"], (), x.data.dtype == np.float64)
    elif o == "setdata": x.data[...] = array(op["dat"], x.data.shape, x.data.dtype == np.float64)
    elif o == "lshift":
        a = arg(op["a"], x)
        if op["full"]: x[:] = a
        else:
            r = x << a
            if r is not x: regs[op["x"]] = r
    elif o == "setsl": x[key(op["key"])] = arg(op["a"], x)
    elif o == "copyfrom": x.copy_from(regs[op["y"]])
    elif o == "lgr": x.from_L_G_R(array(op["l"]["d"], op["l"]["sh"]), regs[op["y"]], array(op["r"]["d"], op["r"]["sh"]))
    elif o == "evalx": bind(lazy.eval_expr(lazily(dict(e=op["e"]))))
    elif o == "dyson":
        n = dict(G0=("G_iw", "Sigma_iw"), G=("G0_iw", "Sigma_iw"), Sigma=("G0_iw", "G_iw"))[op["w"]]
        bind(tools.dyson(**{n[0]: x, n[1]: regs[op["y"]]}))
    elif o == "func":
        c = [cx(z) for z in op["c"]]; m = np.array([cx(z) for z in op["m"]]).reshape(x.target_shape)
        x << desc.Function(lambda z: m * (c[0] + c[1] * z + c[2] * z * z))
    elif o == "semi":
        D = desc.SemiCircular(op["D"][0] / op["D"][1], op["mu"][0] / op["mu"][1]) if op["mu"][0] else desc.SemiCircular(op["D"][0] / op["D"][1])
        str(D); x << D
    elif o == "flat":
        D = op["D"][0] / op["D"][1]; F = desc.Flat(D); str(F); x << F
        out["val"] = [enc(z) for z in np.exp(-2 * D * x.data).reshape(-1)]; im = (2 * D * x.data).imag
        out["branch"] = [int(np.sign(np.round(z, 12))) if abs(z) <= np.pi + 1e-9 else 7 for z in im.reshape(-1)]
        x.zero()
    elif o == "expt":
        l = op["l"][0] / op["l"][1]; n = x.target_shape[0] if x.target_shape else 1
        if op["via"] == "delta": g = tools.make_delta(np.eye(n), [l] * n, x.mesh)
        else: x << desc.OneFermionInTime(l); g = x
        d = g.data.reshape(len(x.mesh), n, n); f = d[:, 0, 0]
        out["lg"] = [enc(-np.log(complex(z / f[0]))) for z in f]; out["sum"] = enc(f[0] + f[-1])
        out["unit"] = bool(abs(d - f[:, None, None] * np.eye(n)).max() < 1e-12)
        x.zero()
    # ---- blocks
    elif o == "bnew":
        ns, gs = list(op["keys"]), [regs[r] for r in op["l"]]
        if op["form"] == "gen" and len(ns) == len(gs): b = BlockGf(name_block_generator=((n, g) for n, g in zip(ns, gs)), make_copies=op["copy"])
        else: b = BlockGf(name_list=ns, block_list=gs, make_copies=op["copy"])
        if op["form"] == "mut": ns.append("later"); gs.reverse()
        bind(b)
    elif o == "b2new":
        n1, n2 = list(op["n1"]), list(op["n2"]); gs = [[regs[op["l"][i * len(n2) + j]] for j in range(len(n2))] for i in range(len(n1))]
        b = Block2Gf(n1, n2, (lambda p, q: gs[n1.index(p)][n2.index(q)]) if op["form"] == "call" else gs, make_copies=op["copy"])
        if op["form"] == "mut": gs.reverse(); gs[0].reverse(); n1.append("later")
        bind(b)
    elif o == "bstruct":
        s = [(k, n) for k, n in zip(op["keys"], op["sizes"])]; m = mesh(op["mesh"])
        bind(BlockGf(mesh=m, gf_struct=s) if op["rank"] == 2 else BlockGf(mesh=m, gf_struct=s, target_rank=op["rank"]))
    elif o == "bget": bind(x[k2(x, op["k"])])
    elif o == "bset": x[k2(x, op["k"])] = arg(op["a"], x)
    elif o == "bcopy": bind(x.copy())
    elif o == "bsel": bind((x.copy_selected_blocks if op["copy"] else x.view_selected_blocks)(op["keys"]))
    elif o == "b2sel": bind((x.copy_selected_blocks if op["copy"] else x.view_selected_blocks)(op["n1"], op["n2"]))
    elif o == "bneg": bind(-x)
    elif o == "bmapneg": bind(map_block(lambda g: -g, x))
    elif o == "binverse": bind(tools.inverse(x))
    elif o == "btransp": bind(tools.transpose(x))
    elif o == "bconj": bind(tools.conjugate(x))
    elif o in ("badd", "bsub", "bmul", "bdiv"): bind(BIN[o[1:]](x, arg(op["a"], x)))
    elif o in ("bradd", "brsub", "brmul"): bind(BIN[o[2:]](arg(op["a"], x), x))
    elif o in ("biadd", "bisub", "bimul", "bidiv"): inplace(BIN[o[1:]], arg(op["a"], x))
    elif o == "blshift":
        a = arg(op["a"], x)
        if rng.random() < 0.3 and type(x) is BlockGf: x[:] = a
        else: inplace(operator.lshift, a)
    elif o == "bcopyfrom": x.copy_from(regs[op["y"]])
    elif o == "bfourier":
        D = desc.Fourier(regs[op["y"]]); x << D
        if op["twice"]: x.zero(); x << D
    else: raise SystemExit("unknown operation " + o)
    return out
NAMES = "abcdePQR"
debug = os.environ.get("GFL_DEBUG")
for line in sys.stdin:
    regs = {n: None for n in NAMES}; rng.seed(line); emit("Reset")
    for op in json.loads(line):
        out = {}
        try: out = run(op); ok = True
        except Exception as ex:
            ok = False
            if debug: sys.stderr.write("%s: %s: %s\n" % (op["o"], type(ex).__name__, str(ex)[:200]))
        emit("Op", op=op, ok=ok, post={n: obs(r) for n, r in regs.items()}, **out)
