-------------------------- MODULE TraceTightBinding --------------------------
EXTENDS TightBinding, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
tv == <<ls, i>>
ev == Trace[i]
Q(x) == R(x[1], x[2])
QV(v) == [k \in 1..Len(v) |-> Q(v[k])]
QM(v) == [k \in 1..Len(v) |-> QV(v[k])]
Delta(a, b) == IF a = b THEN <<1, 1>> ELSE RZero
Micro(m) == [a \in 1..Len(m) |-> [b \in 1..Len(m[a]) |-> <<m[a][b][1] * Unit, m[a][b][2] * Unit>>]]
ObsOk(o, e) ==
  LET b == LatOf(o) n == Dim(b.u) IN
  /\ e.kind = o.t /\ e.ndim = n /\ e.norb = NOrb(b)
  /\ QM(e.u) = [k \in 1..n |-> [x \in 1..n |-> <<b.u[k][x], 1>>]]
  /\ \A x, y \in 1..3 : Q(e.gram[x][y]) = IF x <= n /\ y <= n THEN <<Dot(Row(b.u, x), Row(b.u, y)), 1>> ELSE Delta(x, y)
  /\ QM(e.pos) = b.pos /\ e.nm = b.nm
  /\ IF o.t = "bz" THEN QM(e.k) = [k \in 1..n |-> DualVec(b.u, k)] /\ QM(e.dual) = [x \in 1..3 |-> [y \in 1..3 |-> Delta(x, y)]]
     ELSE e.k = <<>> /\ e.dual = <<>>
  /\ IF o.t = "tb" THEN Len(e.h) = Len(o.h) /\ \A k \in 1..Len(o.h) : e.h[k].r = o.h[k].r /\ e.h[k].m = Micro(o.h[k].m) ELSE e.h = <<>>
Cut(b, x) == [k \in 1..3 |-> IF k <= Dim(b.u) THEN Q(x[k]) ELSE RZero]
ConvOk(o, e) == LET b == LatOf(o) IN
  /\ Len(e.r) = Len(e.x)
  /\ \A k \in 1..Len(e.x) : LET x == Cut(b, e.x[k]) IN
       QV(e.r[k]) = IF o.t = "bz" THEN (IF e.inv THEN MomCoord(b.u, x) ELSE Momentum(b.u, x)) ELSE (IF e.inv THEN PosCoord(b.u, x) ELSE Position(b.u, x))
PointOk(b, e) ==
  LET I == <<e.a, e.b, [k \in 1..3 |-> e.a[k] + e.b[k]], [k \in 1..3 |-> e.a[k] - e.b[k]], [k \in 1..3 |-> -e.a[k]], e.a>> IN
  /\ Len(e.r) = 6
  /\ \A n \in 1..6 : e.r[n].i = I[n] /\ e.r[n].ok /\ QV(e.r[n].r) = Position(b.u, [k \in 1..3 |-> <<I[n][k], 1>>])
Cubic(b, n) == [k \in 1..3 |-> IF k <= Dim(b.u) THEN n ELSE 1]
Momenta(b, e) ==
  CASE e.via \in {"one", "array", "stack"} -> e.ks
    [] e.via = "mesh" -> MeshK(e.d)
    [] e.via = "n" -> MeshK(Cubic(b, e.n))
    [] e.via = "path" -> PathK(e.K1, e.K2, e.n)
    [] e.via = "grid" -> GridK(Dim(b.u), e.n)
FourierOk(o, e) == LET K == TLCEval(Momenta(o.b, e)) IN Len(e.r) = Len(K) /\ \A k \in 1..Len(K) : SameMatrix(e.r[k], Fourier(o, K[k]))
EnergiesOk(o, e) == LET K == TLCEval(Momenta(o.b, e)) IN Len(e.r) = Len(K) /\ \A k \in 1..Len(K) : Spectrum(TLCEval(Fourier(o, K[k])), e.r[k])
\* the energies of a single band
Band(o, K) == TLCEval([k \in 1..Len(K) |-> Element(o.h, K[k], 1, 1)[1]])
\* energies which only differ by rounding may be refused
Flat(E) == MaxOf(E) - MinOf(E) < 100
Near(x, y, t) == AbsI(x - y) <= t
\* of several bands, only the normalisation
DosOk(o, e) ==
  LET K == TLCEval(GridK(Dim(o.b.u), e.n)) n == NOrb(o.b) IN
  IF n = 1 THEN LET E == Band(o, K) IN
    /\ ~ Flat(E) => e.ok
    /\ (e.ok /\ ~ Flat(E)) =>
       LET lo == MinOf(E) w == (MaxOf(E) - lo) \div e.nb IN
       /\ Len(e.eps) = e.nb /\ Len(e.cum) = e.nb
       /\ \A k \in 1..e.nb : Near(e.eps[k], lo + w * (k - 1) + w \div 2, 200)
       /\ \A k \in 1..e.nb : LET c == (e.cum[k] + 5000) \div 10000 IN Near(e.cum[k], 10000 * c, 10) /\ CountOk(E, e.nb, k, c)
  ELSE (e.ok /\ e.eps[e.nb] - e.eps[1] >= 100) => /\ Len(e.per) = n /\ \A k \in 1..n : Near(e.per[k], Unit, 20)
               /\ Len(e.cum) = e.nb /\ Near(e.cum[e.nb], n * Len(K) * 10000, 100) /\ \A k \in 1..(e.nb - 1) : e.cum[k] <= e.cum[k + 1] + 1
\* several triangles: their areas (in units of the smallest) weigh the energies; the cumulated weight up to every edge
Area2(a, b, c) == AbsI((b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1]))
PatchOk(o, e) ==
  LET nt == Len(e.tri) \div 3
      P == TLCEval({<<t, x>> : t \in 1..nt, x \in PatchIdx(e.n)})
      En == TLCEval([p \in P |-> Element(o.h, PatchAt(e.tri[3 * p[1] - 2], e.tri[3 * p[1] - 1], e.tri[3 * p[1]], e.n, p[2]), 1, 1)[1]])
      Wt(t) == Area2(e.tri[3 * t - 2], e.tri[3 * t - 1], e.tri[3 * t])
      W == TLCEval([t \in 1..nt |-> Wt(t)])
      Below(x) == SumI([t \in 1..nt |-> W[t] * Cardinality({q \in P : q[1] = t /\ En[q] <= x})])
      lo == MinOf(En) hi == MaxOf(En) IN
  /\ ~ Flat(En) => e.ok
  /\ (e.ok /\ ~ Flat(En)) =>
     /\ Len(e.eps) = e.nb /\ Len(e.cum) = e.nb
     /\ Near(e.eps[1], lo, 100) /\ Near(e.eps[e.nb], hi, 100)
     /\ Near(e.cum[e.nb], 10000 * Below(hi), 50)
     /\ \A k \in 1..(e.nb - 1) : LET edge == lo + ((hi - lo) \div e.nb) * k + (((hi - lo) % e.nb) * k) \div e.nb IN
          10000 * Below(edge - 100) - 50 <= e.cum[k] /\ e.cum[k] <= 10000 * Below(edge + 100) + 50
EqOk(e) == LET r == Same(e.j, e.k) IN e.r = r /\ e.nr = ~ r
Step ==
  CASE ev.e = "Reset" -> ls' = <<>>
    [] ev.e = "NewLattice" -> NewLattice(ev.id, ev.u, QM(ev.pos), ev.nm, ev.ok)
    [] ev.e = "NewZone" -> NewZone(ev.id, ev.j)
    [] ev.e = "NewModel" -> NewModel(ev.id, ev.j, ev.h, ev.nm, ev.ok)
    [] ev.e = "Copy" -> Copy(ev.id, ev.j)
    [] ev.e = "Obs" -> ObsOk(ls[ev.id], ev) /\ UNCHANGED ls
    [] ev.e = "Eq" -> EqOk(ev) /\ UNCHANGED ls
    [] ev.e = "Conv" -> ConvOk(ls[ev.j], ev) /\ UNCHANGED ls
    [] ev.e = "Point" -> PointOk(LatOf(ls[ev.j]), ev) /\ UNCHANGED ls
    [] ev.e = "Fourier" -> FourierOk(ls[ev.j], ev) /\ UNCHANGED ls
    [] ev.e = "Energies" -> EnergiesOk(ls[ev.j], ev) /\ UNCHANGED ls
    [] ev.e = "Dos" -> DosOk(ls[ev.j], ev) /\ UNCHANGED ls
    [] ev.e = "Patch" -> PatchOk(ls[ev.j], ev) /\ UNCHANGED ls
    [] OTHER -> FALSE
TInit == ls = <<>> /\ i = 1
TNext == i <= Len(Trace) /\ Step /\ i' = i + 1
TSpec == TInit /\ [][TNext]_tv
TraceAccepted == LET k == TLCGet("stats").diameter IN IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", k>>, FALSE)
===============================================================================
