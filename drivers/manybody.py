"""Stand-in for triqs.operators.operators: sums of products of creation and annihilation operators in normal order."""
class Operator:
    __array_ufunc__ = None
    def __init__(self, x=0): self.t = {} if x == 0 else {(): x}
    @staticmethod
    def of(t):
        o = Operator(); o.t = {m: z for m, z in t.items() if abs(z) > 1e-14}; return o
    def __iter__(self): return iter([([[bool(d), list(i)] for d, i in m], z) for m, z in sorted(self.t.items(), key=lambda p: (len(p[0]), str(p[0])))])
    def __add__(self, o):
        o = o if isinstance(o, Operator) else Operator(o); t = dict(self.t)
        for m, z in o.t.items(): t[m] = t.get(m, 0) + z
        return Operator.of(t)
    __radd__ = __add__
    def __neg__(self): return self * -1
    def __sub__(self, o): return self + (-o)
    def __rsub__(self, o): return -self + o
    def __mul__(self, o):
        if not isinstance(o, Operator): return Operator.of({m: z * o for m, z in self.t.items()})
        t = {}
        for m, z in self.t.items():
            for k, y in o.t.items():
                for s, w in order(m + k): t[w] = t.get(w, 0) + s * z * y
        return Operator.of(t)
    def __rmul__(self, z): return Operator.of({m: x * z for m, x in self.t.items()})
    def __truediv__(self, z): return self * (1.0 / z)
    def is_zero(self): return not self.t
    @property
    def real(self): return Operator.of({m: z.real for m, z in self.t.items()})
    @property
    def imag(self): return Operator.of({m: z.imag for m, z in self.t.items()})
def key(x): return (0, x[1]) if x[0] else (1, tuple(Rev(i) for i in x[1]))
class Rev:
    def __init__(self, x): self.x = x
    def __lt__(self, o): return o.x < self.x
    def __eq__(self, o): return self.x == o.x
def order(w):
    "normal order of a product: list of (sign, word)"
    out, todo = [], [(1, list(w))]
    while todo:
        s, w = todo.pop()
        for i in range(len(w) - 1):
            a, b = w[i], w[i + 1]
            if a == b: break
            if key(b) < key(a):
                todo.append((-s, w[:i] + [b, a] + w[i + 2:]))
                if a[0] != b[0] and a[1] == b[1]: todo.append((s, w[:i] + w[i + 2:]))
                break
        else: out.append((s, tuple(w)))
    return out
def ind(a): return tuple(int(x) if hasattr(x, "__index__") else x for x in a)
def c(*a): o = Operator(); o.t = {((False, ind(a)),): 1}; return o
def c_dag(*a): o = Operator(); o.t = {((True, ind(a)),): 1}; return o
def n(*a): return c_dag(*a) * c(*a)
def dagger(o): return Operator.of({w: z.conjugate() for w, z in [(tuple((not d, i) for d, i in reversed(m)), z) for m, z in o.t.items()]})
