"""Lazy expressions and descriptors (GfHeap.tla)."""
from fractions import Fraction as F
import vlib
from C25 import conform
def q(x): x = F(x); return [x.numerator, x.denominator]
def cq(z): return [q(z[0]), q(z[1])]
def cmul(a, b): return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
def cinv(a): n = a[0] ** 2 + a[1] ** 2; return (a[0] / n, -a[1] / n)
CZ = [[0, 1], [0, 1]]
REAL = [(F(2), F(0)), (F(-3), F(0)), (F(3, 2), F(0)), (F(3, 5), F(4, 5)), (F(-4, 5), F(3, 5)), (F(0), F(1)), (F(-2), F(0)), (F(5, 13), F(12, 13))]
IMAG = [(F(1), F(1)), (F(0), F(2)), (F(-1), F(1)), (F(0), F(-3)), (F(1), F(-1)), (F(2), F(1)), (F(0), F(3, 2)), (F(-1), F(-2))]
def new(d, k, vs, shape): return dict(o="new", d=d, real=False, mesh=[dict(k=k, st="" if k == "ReFreq" else "F", v=[cq(v) for v in vs])], shape=shape, dat=[CZ] * (len(vs) * (shape[0] ** 2 if shape else 1)))
def descriptors(c, n):
    """Histories with the descriptors, on meshes on which their values are rational."""
    r = c.rng; hs = []
    for _ in range(n):
        h = []
        for d in "abcde":
            sh = r.choice([[], [1, 1], [2, 2], [2, 2]]); kind = r.choice(["semi", "semi", "flat", "delta", "expt"])
            k = r.choice(["ImFreq", "ReFreq", "DLRImFreq"]); D = r.choice([F(1), F(2), F(1, 2), F(3, 2)])
            if kind == "semi":
                ts = [r.choice(REAL if k == "ReFreq" else IMAG) for _ in range(r.choice([2, 4]))]; mu = r.choice([F(0), F(0), F(1, 2), F(-1), F(2)])
                z = [tuple(D / 2 * (x + y) - (mu if i == 0 else 0) for i, (x, y) in enumerate(zip(t, cinv(t)))) for t in ts]
                h += [new(d, k, z, sh), dict(o="semi", x=d, D=q(D), mu=q(mu), ts=[cq(t) for t in ts])]
            elif kind == "flat":
                vs = []
                while len(vs) < 4:
                    v = (r.choice([F(0), F(1, 4), F(3), F(-1, 3), F(5, 2), F(-4)]), F(0) if k == "ReFreq" else r.choice([F(1), F(-1), F(3), F(1, 2), F(-3)]))
                    if abs(v[0]) != D or v[1]: vs.append(v)
                if k != "ReFreq": vs = [(F(0), v[1]) for v in vs]
                h += [new(d, k, vs, sh), dict(o="flat", x=d, D=q(D))]
            elif kind == "delta":
                no, nb = r.choice([1, 2]), r.choice([1, 2, 3])
                V = [[cq((F(r.randint(-1, 1)), F(r.randint(-1, 1)))) for _ in range(nb)] for _ in range(no)]
                h.append(dict(o="mkdelta", d=d, V=V, eps=[q(r.choice([F(0), F(1), F(-1)])) for _ in range(nb)],
                              mesh=[dict(k="ImFreq", st="F", v=[cq((F(0), F(2 * i - 1))) for i in ([0, 1] if r.random() < 0.5 else [-1, 0, 1, 2])])]))
            else:
                b, nt = r.choice([F(1), F(2), F(3)]), r.choice([2, 3, 5])
                g = new(d, "ImTime", [(b * i / (nt - 1), F(0)) for i in range(nt)], sh); g["mesh"][0]["st"] = r.choice("FB")
                h += [g, dict(o="expt", x=d, l=q(r.choice([F(0), F(1), F(-1), F(1, 2), F(-3, 2), F(2)])), via=r.choice(["delta", "one"]))]
            if h[-1]["o"] == "semi" and r.random() < 0.5: h.append(dict(o="lshift", x=d, full=False, a=dict(a="reg", r=d)))
        hs.append(h)
    return hs
def check(c):
    c.model("MCGfHeapX", c.pick("MCGfHeapX_22", "MCGfHeapX_22t"))
    conform(c, "MCGfHeap_lazy", c.pick(160, 2400), 30, "lazy", descriptors(c, c.pick(40, 400)))
    c.finish()
