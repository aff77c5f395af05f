"""Arithmetic of Matsubara frequencies in Python (triqs/gf/matsubara_freq.py)."""
import sys, json, math, os, copy, pickle, importlib.util
from fractions import Fraction as F
spec = importlib.util.spec_from_file_location("matsubara_freq", os.path.join(os.environ["VERIF_REPO"], "python/triqs/gf/matsubara_freq.py"))
mod = importlib.util.module_from_spec(spec); sys.modules["matsubara_freq"] = mod; spec.loader.exec_module(mod)
M = mod.MatsubaraFreq
def rat(x):
    if not math.isfinite(x): return [0, 0]
    f = F(x).limit_denominator(100000)
    return [f.numerator, f.denominator] if abs(float(f) - x) <= 1e-11 * max(1, abs(x)) else [0, 0]
def cz(z): return [rat(z.real), rat(z.imag)]
def emit(e, **k): sys.stdout.write(json.dumps(dict(e=e, **k), separators=(",", ":")) + "\n"); sys.stdout.flush()
def seen(f):
    u = f.beta / math.pi
    return {"n": int(f.n), "s": {"Fermion": "F", "Boson": "B"}.get(f.statistic, "?"), "b": rat(f.beta),
            "z": [cz(z * u) for z in (complex(f), f.value, complex(f.real, f.imag))] + ([] if f.is_fermion == (f.statistic == "Fermion") else [[[0, 0], [0, 0]]])}
OPS = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y}
for line in sys.stdin:
    H = json.loads(line)
    emit("Reset")
    fr = {}
    for o in H["ops"]:
        op = o["op"]
        if op == "new":
            b = o["b"][0] / o["b"][1]
            fr[o["id"]] = M(o["n"], b) if o["s"] == "F" and o["how"] == 1 else M(o["n"], b, {"F": "Fermion", "B": "Boson"}[o["s"]])
            emit("New", id=o["id"], n=o["n"], s=o["s"], b=o["b"], o=seen(fr[o["id"]]))
        elif op in ("add", "sub"):
            try:
                r = fr[o["j"]] + fr[o["k"]] if op == "add" else fr[o["j"]] - fr[o["k"]]
            except RuntimeError:
                emit("Refused", j=o["j"], k=o["k"]); continue
            fr[o["id"]] = r
            emit("Add" if op == "add" else "Sub", id=o["id"], j=o["j"], k=o["k"], o=seen(r))
        elif op == "neg":
            fr[o["id"]] = -fr[o["j"]]
            emit("Neg", id=o["id"], j=o["j"], o=seen(fr[o["id"]]))
        elif op == "op":
            u = math.pi / fr[o["j"]].beta
            def val(a):
                if a["t"] == "f": return fr[a["id"]]
                z = [F(*x) for x in a["z"]]
                return float(z[0]) * u if a["t"] == "r" else complex(float(z[0]), float(z[1])) * u
            r = complex(OPS[o["o"]](val(o["x"]), val(o["y"])))
            r = r / (u * u) if o["o"] == "*" else r if o["o"] == "/" else r / u
            emit("Op", op=o["o"], x=o["x"], y=o["y"], r=cz(r))
        elif op == "abs": emit("Abs", j=o["j"], r=rat(abs(fr[o["j"]]) * fr[o["j"]].beta / math.pi))
        elif op == "pow":
            f = fr[o["j"]]
            emit("Pow", j=o["j"], p=o["p"], r=cz(f ** o["p"] / (math.pi / f.beta) ** o["p"]))
    for i, f in fr.items(): emit("Obs", id=i, o=seen(f))
