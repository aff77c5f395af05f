"""Histories of transactions on tracked determinants: the generator follows the same bookkeeping as the specification, to complete only
trials of non-singular matrices of a bounded determinant (so that every number is an exact small rational)."""
import copy
import numpy as np

class Gen:
    def __init__(self, r, focus):
        self.r, self.focus = r, focus
        self.cplx = r.random() < 0.3
        x = r.random()
        if self.cplx: pool, self.maxn, self.lim = [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (1, -1)], 4, 64
        elif x < 0.6: pool, self.maxn, self.lim = [(0, 0), (1, 0), (-1, 0)], 7, 1500
        else: pool, self.maxn, self.lim = [(0, 0), (1, 0), (-1, 0), (2, 0), (-2, 0)], 5, 2000
        self.nl = 9
        self.F = [[r.choice(pool) for _ in range(self.nl)] for _ in range(self.nl)]
        self.d, self.ops = {}, []
    def det(self, xs, ys):
        if len(xs) != len(ys): return 0
        if not xs: return 1
        M = np.array([[complex(*self.F[x - 1][y - 1]) for y in ys] for x in xs])
        z = np.linalg.det(M)
        return complex(round(z.real), round(z.imag))
    def good(self, t): return 0 < abs(self.det(*t)) <= self.lim
    def target(self, o, t):
        xs, ys = list(o["x"]), list(o["y"])
        k = t["k"]
        if k == "insert":
            for p, v in sorted(zip(t["i"], t["x"])): xs.insert(p, v)
            for p, v in sorted(zip(t["j"], t["y"])): ys.insert(p, v)
        elif k == "remove":
            xs = [v for a, v in enumerate(xs) if a not in t["i"]]
            ys = [v for a, v in enumerate(ys) if a not in t["j"]]
        elif k == "refill": xs, ys = list(t["x"]), list(t["y"])
        else:
            if k in ("row", "rowcol"): xs[t["i"][0]] = t["x"][0]
            if k in ("col", "rowcol"): ys[t["j"][0]] = t["y"][0]
        return xs, ys
    def labels(self, n): return [self.r.randrange(1, self.nl + 1) for _ in range(n)]
    def unused(self, s, n):
        free = [v for v in range(1, self.nl + 1) if v not in s]
        self.r.shuffle(free)
        return (free + self.labels(n))[:n] if self.r.random() < 0.9 else self.labels(n)
    def trial(self, o):
        r, n = self.r, len(o["x"])
        for _ in range(50):
            x = r.random()
            if x < 0.45:
                k = r.choice([1, 1, 1, 2, 2, 3, 4])
                if n + k > self.maxn: continue
                return {"k": "insert", "i": r.sample(range(n + k), k), "j": r.sample(range(n + k), k), "x": self.unused(o["x"], k), "y": self.unused(o["y"], k)}
            if x < 0.65 and n:
                k = min(n, r.choice([1, 1, 2, 2, 3, 4, n]))
                return {"k": "remove", "i": r.sample(range(n), k), "j": r.sample(range(n), k)}
            if x < 0.73 and n: return {"k": "col", "j": [r.randrange(n)], "y": self.unused(o["y"], 1)}
            if x < 0.81 and n: return {"k": "row", "i": [r.randrange(n)], "x": self.unused(o["x"], 1)}
            if x < 0.92 and n: return {"k": "rowcol", "i": [r.randrange(n)], "j": [r.randrange(n)], "x": self.unused(o["x"], 1), "y": self.unused(o["y"], 1)}
            if x < 0.96 or n == 0:
                k = r.randrange(0, self.maxn + 1)
                return {"k": "refill", "x": self.unused([], k), "y": self.unused([], k)}
        return {"k": "refill", "x": [], "y": []}
    def valid(self, o, t):
        n, k = len(o["x"]), t["k"]
        ok = lambda p, m: len(set(p)) == len(p) and all(0 <= a < m for a in p)
        if k == "insert": return len(t["i"]) == len(t["j"]) == len(t["x"]) == len(t["y"]) and ok(t["i"], n + len(t["i"])) and ok(t["j"], n + len(t["i"]))
        if k == "refill": return len(t["x"]) == len(t["y"])
        if k == "remove" and len(t["i"]) != len(t["j"]): return False
        return ok(t.get("i", []), n) and ok(t.get("j", []), n)
    def bad(self, o):
        while True:
            t = self.bad_(o)
            if not self.valid(o, t): return t
    def bad_(self, o):
        r, n = self.r, len(o["x"])
        x = r.random()
        w = r.choice([-1, n + 1, n + 2, n + 7]) # out of range for an insertion of one line
        if x < 0.3:
            k = r.choice([1, 2, 3])
            i, j = r.sample(range(n + k), k), r.sample(range(n + k), k)
            y = r.random()
            if y < 0.6: (i if r.random() < 0.5 else j)[r.randrange(k)] = r.choice([-1, -2, n + k, n + k + 3])
            elif k > 1: a = i if r.random() < 0.5 else j; a[0] = a[1]
            else: i.append(0)
            return {"k": "insert", "i": i, "j": j, "x": self.labels(k), "y": self.labels(k)}
        if x < 0.6:
            k = r.choice([1, 2, 3])
            if k > n: return {"k": "remove", "i": list(range(k)), "j": list(range(k))}
            i, j = r.sample(range(n), k), r.sample(range(n), k)
            if k > 1 and r.random() < 0.4: a = i if r.random() < 0.5 else j; a[0] = a[1]
            else: (i if r.random() < 0.5 else j)[r.randrange(k)] = r.choice([-1, n, n + 1])
            return {"k": "remove", "i": i, "j": j}
        z = r.choice([-1, n, n + 1])
        if x < 0.7: return {"k": "col", "j": [z], "y": self.labels(1)}
        if x < 0.8: return {"k": "row", "i": [z], "x": self.labels(1)}
        if x < 0.9: return {"k": "rowcol", "i": [z if r.random() < 0.5 or n == 0 else 0], "j": [z], "x": self.labels(1), "y": self.labels(1)}
        return {"k": "refill", "x": self.labels(2), "y": self.labels(3)}
    def emit(self, **o):
        if self.r.random() < (0.5 if self.focus == "state" else 0.35) and o.get("id") in self.d and not (o["op"] == "move" and False): o["obs"] = True
        self.ops.append(o)
    def fresh(self, i, size=None):
        r = self.r
        for _ in range(20):
            k = r.randrange(0, self.maxn + 1) if r.random() < 0.6 else 0
            xs, ys = self.unused([], k), self.unused([], k)
            if self.good((xs, ys)): break
        else: xs, ys, k = [], [], 0
        self.d[i] = {"x": list(xs), "y": list(ys), "t": None}
        if k == 0 and r.random() < 0.8: self.emit(op="new", id=i, empty=True, size=r.choice([1, 1, 2, 3, 10, 30]), x=[], y=[])
        else: self.emit(op="new", id=i, x=xs, y=ys, way=r.randrange(2))
    def step(self):
        r = self.r
        i = r.choice(sorted(self.d))
        o = self.d[i]
        n = len(o["x"])
        w = r.randrange(2)
        if o["t"]:
            x = r.random()
            if x < 0.55 and self.good(self.target(o, o["t"])):
                o["x"], o["y"] = self.target(o, o["t"]); o["t"] = None
                return self.emit(op="complete", id=i)
            if x < 0.8:
                o["t"] = None
                return self.emit(op="reject", id=i)
            if x < 0.88: return self.emit(op="try", id=i, t=self.trial(o), way=w)
            if x < 0.92: return self.emit(op="obs", id=i)
            if x < 0.94: return self.emit(op="det", id=i)
            if x < 0.96: o.update(x=[], y=[], t=None); return self.emit(op="clear", id=i)
            # other objects made of one with a pending trial
            j = r.randrange(1, 4)
            if j == i: return
            y = r.random()
            if y < 0.5: self.d[j] = copy.deepcopy(o); return self.emit(op="copy", id=j, j=i)
            if y < 0.75: self.d[j] = copy.deepcopy(o); self.d[j]["t"] = None; return self.emit(op="h5", id=j, j=i, size=r.choice([1, 2, 10]))
            if j in self.d and not self.d[j]["t"]:
                self.d[i], self.d[j] = self.d[j], self.d[i]; return self.emit(op="swap", id=i, j=j)
            self.d.pop(j, None); self.d[j] = self.d.pop(i)
            return self.emit(op="move", id=j, j=i, assign=False)
        x = r.random()
        if x < 0.40: o["t"] = self.trial(o); return self.emit(op="try", id=i, t=o["t"], way=w)
        if x < (0.44 if self.focus == "state" else 0.52):
            for _ in range(10):
                t = self.trial(o)
                if len(t.get("i", [0])) <= 2 and self.good(self.target(o, t)):
                    if t["k"] == "insert" and r.random() < 0.3:
                        k = len(t["i"]); u = dict(t, i=list(range(n, n + k)), j=list(range(n, n + k)))
                        if self.good(self.target(o, u)): t = u
                    if t["k"] == "remove" and r.random() < 0.4:
                        k = len(t["i"]); u = dict(t, i=[n - 1, n - 2][:k], j=[n - 1, n - 2][:k])
                        if self.good(self.target(o, u)): t = u
                    o["x"], o["y"] = self.target(o, t)
                    return self.emit(op="do", id=i, t=t, way=w)
            return
        if x < 0.60:
            if r.random() < (0.8 if self.focus == "state" else 0.3): return self.emit(op="try", id=i, t=self.bad(o), way=w)
            return self.emit(op="fromf", id=i, i=r.randrange(n + 1), j=r.randrange(n + 1), x=self.labels(1)[0], y=self.labels(1)[0])
        if x < 0.63: return self.emit(op="complete", id=i) if r.random() < 0.5 else self.emit(op="reject", id=i)
        if x < 0.72 and n:
            a, b = r.randrange(n), r.randrange(n)
            k = r.choice("xy")
            o[k][a], o[k][b] = o[k][b], o[k][a]
            return self.emit(op="swap_row" if k == "x" else "swap_col", id=i, i=a, j=b)
        if x < 0.79:
            way = r.choice(["none", "up", "down", "left", "right"])
            k = "x" if way in ("up", "down") else "y"
            if n and way in ("down", "right"): o[k] = o[k][-1:] + o[k][:-1]
            elif n and way != "none": o[k] = o[k][1:] + o[k][:1]
            return self.emit(op="roll", id=i, way=way)
        if x < 0.83: return self.emit(op="det", id=i)
        if x < 0.85: return self.emit(op="regenerate", id=i)
        if x < 0.87: return self.emit(op="reserve", id=i, n=r.choice([1, 2, 5, 10]), k=r.choice([1, 2, 5]))
        if x < 0.885: # singularity threshold, in halves: raised above the determinant, used, lowered again
            if r.random() < 0.5:
                self.emit(op="threshold", id=i, n=r.choice([0, 1, 3, 5, 100]))
                for _ in range(r.randrange(1, 4)): self.emit(op=r.choice(["det", "det", "regenerate", "obs"]), id=i)
            self.emit(op="threshold", id=i, n=r.choice([-1, 0, 1, 1])); return
        if x < 0.90: return self.emit(op="before", id=i, n=r.choice([0, 1, 2, 5, 100]))
        if x < 0.905: return self.emit(op="precision", id=i, n=r.randrange(1, 50))
        if x < 0.915: o.update(x=[], y=[]); return self.emit(op="clear", id=i)
        if x < 0.925: return self.fresh(r.randrange(1, 4))
        j = r.randrange(1, 4)
        if j == i: return
        y = r.random()
        if y < 0.35: self.d[j] = copy.deepcopy(o); return self.emit(op="copy", id=j, j=i)
        if y < 0.6: self.d[j] = copy.deepcopy(o); return self.emit(op="h5", id=j, j=i, size=r.choice([1, 1, 2, 10]))
        if j in self.d and y < 0.8: self.d[i], self.d[j] = self.d[j], self.d[i]; return self.emit(op="swap", id=i, j=j)
        assign = j in self.d and not self.d[j]["t"]
        self.d.pop(j, None); self.d[j] = self.d.pop(i)
        return self.emit(op="move", id=j, j=i, assign=assign)
    def history(self, n):
        self.fresh(1)
        while len(self.ops) < n: self.step()
        for i in sorted(self.d): self.ops += [{"op": "det", "id": i}, {"op": "obs", "id": i}]
        return {"cplx": self.cplx, "F": self.F, "ops": self.ops}

def from_model(ops, r):
    out = [{"op": "new", "id": 1, "empty": True, "size": r.choice([1, 2, 10]), "x": [], "y": []}]
    for o in ops:
        out.append(dict(o, way=o.get("way", r.randrange(2)), obs=True))
    F = [[[1, 0], [2, 0], [0, 1]], [[-1, 0], [1, 0], [0, 0]], [[0, 0], [1, 1], [2, 0]]]
    return {"cplx": True, "F": F, "ops": out + [{"op": "det", "id": 1}]}
