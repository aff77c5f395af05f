"""Root finding (triqs/utility/dichotomy.py, bound_and_bisect.py): every evaluation of the function is recorded."""
import sys, json, math, bisect as bs, io, contextlib
from pystub import *
package("triqs"); package("triqs.utility")
module("triqs.utility.mpi", report=lambda *a: None)
dich = load("triqs.utility.dichotomy"); bb = load("triqs.utility.bound_and_bisect")
class Runaway(Exception): pass
def fn(F):
    xs, ys, t = F["xs"], F["ys"], F["t"]
    def f(x):
        if t == "nan" and x > xs[-1]: return float("nan")
        if x <= xs[0]: return ys[0] + F["l"] * (x - xs[0])
        if x >= xs[-1]: return ys[-1] + F["r"] * (x - xs[-1])
        i = bs.bisect_right(xs, x) - 1
        if t == "step": return ys[i]
        return ys[i] + (ys[i + 1] - ys[i]) * ((x - xs[i]) / (xs[i + 1] - xs[i]))
    return f
def sg(v): return int(bool(v > 0)) - int(bool(v < 0))
for line in sys.stdin:
    H = json.loads(line)
    emit("Reset")
    for o in H["ops"]:
        f, y, pr, x0, dx = fn(o["f"]), o["y"], o["pr"], o["x0"], o["dx"]
        seen = []
        def g(x):
            v = f(x)
            if len(seen) > 5 * o["max"] + 100: raise Runaway()
            seen.append((float(x), v)); return v
        res = None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if o["algo"] == "dich": res = dich.dichotomy(g, x0, y, pr, dx, max_loops=o["max"], x_name=o["name"], y_name=o["name"], verbosity=o["verb"])
                else: res = bb.bound_and_bisect(g, x0, y=y, dx=dx, xtol=pr, maxiter=o["max"], verbosity=o["verb"])
            if o["algo"] == "dich" and res[0] is None: res = "Fail" if res[1] is None else "HalfFail"
        except Runaway: res = "Runaway"
        except (ValueError, RuntimeError): res = "Fail" if o["algo"] == "bis" else "Raised"
        except Exception as e: res = "Raised"
        emit("Start", algo=o["algo"], max=o["max"], must=o["must"])
        # order numbers; positions equal up to rounding get the same number
        order, num, last = sorted({x for x, _ in seen}), {}, None
        n = -1
        for x in order:
            if last is None or x - last > 1e-13 * max(1, abs(x)): n += 1; last = x
            num[x] = n
        for x, v in seen:
            k = (x - x0) / abs(dx) if o["algo"] == "dich" else (x - x0) / dx
            k = round(k) if math.isfinite(k) and abs(k - round(k)) < 1e-9 and abs(k) < 1e6 else -1000000
            d = abs(v - y)
            emit("Eval", x=num[x], k=k, s=sg(v - y), w=3 if d != d else 0 if d < pr else 1 if d == pr else 2)
        if isinstance(res, str): emit(res)
        else:
            x, v = res
            tol = pr * (1 + 1e-6) + 1e-14
            emit("Found", x=num.get(float(x), -1), same=bool(v == f(x)), sl=sg(f(max(x - tol, order[0])) - y), sh=sg(f(min(x + tol, order[-1])) - y))
