----------------------------- MODULE TightBinding -----------------------------
(* Bravais lattices, Brillouin zones and tight-binding models built on them, held in slots ls[id]:
     [t |-> "bl", u |-> rows, pos |-> orbital positions, nm |-> orbital names]
     [t |-> "bz", b |-> lattice]
     [t |-> "tb", b |-> lattice, h |-> <<[r |-> displacement, m |-> matrix of Gaussian integers <<re, im>>], ...>>]
   Momenta are integers in units of 1/24 of the reciprocal basis vectors, phases and energies integers in units of 10^-6. *)
EXTENDS Lattice
VARIABLE ls
Q24 == 24
Unit == 1000000
\* round(10^6 cos(2 pi k / 24)) for k in 0..6
Quarter == <<1000000, 965926, 866025, 707107, 500000, 258819, 0>>
Cos(k) == LET a == k % 24 b == IF a > 12 THEN 24 - a ELSE a IN IF b <= 6 THEN Quarter[b + 1] ELSE -Quarter[(12 - b) + 1]
Sin(k) == Cos(k - 6)
NOrb(b) == Len(b.pos)
LatOf(o) == IF o.t = "bl" THEN o ELSE o.b

\* ---- which lattices and which sets of hoppings are accepted
LatticeOk(u) == Dim(u) \in 1..3 /\ Independent(u)
Neg(r) == [k \in 1..Len(r) |-> -r[k]]
Dagger(m) == [a \in 1..Len(m) |-> [b \in 1..Len(m) |-> <<m[b][a][1], -m[b][a][2]>>]]
Square(m, n) == Len(m) = n /\ \A a \in 1..Len(m) : Len(m[a]) = n
Opposites(h, i) == {j \in 1..Len(h) : h[j].r = Neg(h[i].r)}
ModelOk(b, h, nm) ==
  /\ nm = Len(h)
  /\ \A i \in 1..Len(h) : Len(h[i].r) = Dim(b.u) /\ Square(h[i].m, NOrb(b))
  /\ \A i \in 1..Len(h) : Opposites(h, i) # {} /\ \A j \in Opposites(h, i) : h[i].m = Dagger(h[j].m)

\* ---- Fourier transform at k: a matrix of <<re, im>> in units of 10^-6
Phase(r, k) == LET S[i \in 0..Len(r)] == IF i = 0 THEN 0 ELSE S[i - 1] + r[i] * k[i] IN S[Len(r)]
Term(h, k, a, b) == LET p == Phase(h.r, k) c == Cos(p) s == Sin(p) z == h.m[a][b] IN <<z[1] * c - z[2] * s, z[1] * s + z[2] * c>>
Element(h, k, a, b) == LET S[i \in 0..Len(h)] == IF i = 0 THEN <<0, 0>> ELSE LET t == Term(h[i], k, a, b) IN <<S[i - 1][1] + t[1], S[i - 1][2] + t[2]>> IN S[Len(h)]
Fourier(m, k) == [a \in 1..NOrb(m.b) |-> [b \in 1..NOrb(m.b) |-> Element(m.h, k, a, b)]]
Close(x, y) == AbsI(x - y) <= 60
SameMatrix(A, B) == Len(A) = Len(B) /\ \A a \in 1..Len(A) : Len(A[a]) = Len(B[a]) /\ \A b \in 1..Len(A[a]) : Close(A[a][b][1], B[a][b][1]) /\ Close(A[a][b][2], B[a][b][2])
\* e is the spectrum (one or two bands) of the matrix A: in increasing order, with its trace and the trace of its square
Milli(x) == (x + 500) \div 1000
Sq(x) == Milli(x) * Milli(x)
Spectrum(A, e) ==
  LET n == Len(A) tr == SumI([a \in 1..n |-> A[a][a][1]])
      A2 == SumI([a \in 1..n |-> SumI([b \in 1..n |-> Sq(A[a][b][1]) + Sq(A[a][b][2])])])
      e2 == SumI([a \in 1..n |-> Sq(e[a])]) IN
  /\ Len(e) = n
  /\ \A a \in 1..(n - 1) : e[a] <= e[a + 1]
  /\ AbsI(SumI(e) - tr) <= 120
  /\ AbsI(e2 - A2) <= 100000

\* ---- momenta of meshes, paths and grids
MeshK(d) == [i \in 1..(d[1] * d[2] * d[3]) |-> LET p == i - 1 IN
  <<(p \div (d[2] * d[3])) * (Q24 \div d[1]), ((p \div d[3]) % d[2]) * (Q24 \div d[2]), (p % d[3]) * (Q24 \div d[3])>>]
PathK(K1, K2, n) == [i \in 1..n |-> [x \in 1..3 |-> K1[x] + (i - 1) * ((K2[x] - K1[x]) \div n)]]
RECURSIVE Pow(_, _)
Pow(n, k) == IF k = 0 THEN 1 ELSE n * Pow(n, k - 1)
GridK(dim, n) == [i \in 1..Pow(n, dim) |-> LET p == i - 1 c == <<p % n, (p \div n) % n, p \div (n * n)>> IN
  [x \in 1..3 |-> (2 * (IF x <= dim THEN c[x] ELSE 0) + 1) * ((Q24 \div 2) \div n)]]
\* centres of the n * n triangles into which the triangle (a, b, c) of the plane is divided: those pointing up, then down, row by row
PatchAt(a, b, c, n, t) == [x \in 1..2 |-> (3 * n * a[x] + 3 * t[1] * (b[x] - a[x]) + 3 * t[2] * (c[x] - a[x]) + t[3] * (b[x] + c[x] - 2 * a[x])) \div (3 * n)]
PatchIdx(n) == {t \in (0..(n - 1)) \X (0..(n - 1)) \X (1..2) : IF t[3] = 1 THEN t[1] + t[2] <= n - 1 ELSE t[1] + t[2] <= n - 2}

\* ---- densities of states: nb bins of equal width from the lowest to the highest energy
Lower(E, x) == Cardinality({i \in DOMAIN E : E[i] <= x})
MinOf(E) == CHOOSE x \in {E[i] : i \in DOMAIN E} : \A j \in DOMAIN E : x <= E[j]
MaxOf(E) == CHOOSE x \in {E[i] : i \in DOMAIN E} : \A j \in DOMAIN E : x >= E[j]
\* number of energies in the first k of nb bins, up to rounding at the edges: c is cumulative
CountOk(E, nb, k, c) == LET lo == MinOf(E) hi == MaxOf(E) edge == lo + ((hi - lo) \div nb) * k + (((hi - lo) % nb) * k) \div nb IN
  /\ k = nb => c = Cardinality(DOMAIN E)
  /\ k < nb => (Lower(E, edge - 100) <= c /\ c <= Lower(E, edge + 100))

Set(id, o) == ls' = (id :> o) @@ ls
NewLattice(id, u, pos, nm, ok) ==
  /\ ok = LatticeOk(u)
  /\ IF ok THEN Set(id, [t |-> "bl", u |-> u, pos |-> pos, nm |-> nm]) ELSE UNCHANGED ls
NewZone(id, j) == j \in DOMAIN ls /\ ls[j].t = "bl" /\ Set(id, [t |-> "bz", b |-> ls[j]])
NewModel(id, j, h, nm, ok) ==
  /\ j \in DOMAIN ls /\ ls[j].t = "bl"
  /\ ok = ModelOk(ls[j], h, nm)
  /\ IF ok THEN Set(id, [t |-> "tb", b |-> ls[j], h |-> h]) ELSE UNCHANGED ls
Copy(id, j) == j \in DOMAIN ls /\ Set(id, ls[j])
\* lattices compare by their vectors and number of orbitals
SameLattice(a, b) == a.u = b.u /\ NOrb(a) = NOrb(b)
Same(j, k) == LET a == ls[j] b == ls[k] IN
  /\ a.t = b.t
  /\ SameLattice(LatOf(a), LatOf(b))
  /\ a.t = "tb" => a.h = b.h
===============================================================================
