--------------------------------- MODULE Mesh ---------------------------------
(* Meshes ms[id] = [t |-> kind, ...parameters] or products [t |-> "prod", f |-> <<meshes>>].
   An index is a sequence of integers, and so is a position in the data; those of products are concatenated. *)
EXTENDS Lattice
VARIABLE ms
Linear == {"imtime", "retime", "refreq"}
Periodic == {"brzone", "cyclat"}
Lo(m) == IF m.t = "imtime" THEN RZero ELSE R(m.a[1], m.a[2])
Hi(m) == IF m.t = "imtime" THEN R(m.beta[1], m.beta[2]) ELSE R(m.b[1], m.b[2])
FirstIndex(m) == IF m.t # "imfreq" \/ m.pos THEN 0 ELSE IF m.s = "F" THEN -m.n ELSE 1 - m.n
LastIndex(m) == m.n - 1
SizeOf(m) == IF m.t \in Periodic THEN m.d[1] * m.d[2] * m.d[3] ELSE LastIndex(m) - FirstIndex(m) + 1
\* index of the point at position k (from 0) of a single mesh
IndexAt(m, k) == IF m.t \in Periodic THEN <<k \div (m.d[2] * m.d[3]), (k \div m.d[3]) % m.d[2], k % m.d[3]>> ELSE <<k + FirstIndex(m)>>
PosOf(m, i) == IF m.t \in Periodic THEN (i[1] * m.d[2] + i[2]) * m.d[3] + i[3] ELSE i[1] - FirstIndex(m)
ValidOne(m, i) == IF m.t \in Periodic THEN \A k \in 1..3 : i[k] \in 0..(m.d[k] - 1) ELSE i[1] \in FirstIndex(m)..LastIndex(m)
Wrap(m, i) == [k \in 1..3 |-> i[k] % m.d[k]]
Factors(m) == IF m.t = "prod" THEN m.f ELSE <<m>>
\* all points, in order, as pairs <<index, position>>; the last factor is the fastest
PointsOne(m) == [k \in 1..SizeOf(m) |-> <<IndexAt(m, k - 1), <<k - 1>>>>]
RECURSIVE PointsOf(_)
PointsOf(f) ==
  IF Len(f) = 1 THEN PointsOne(f[1]) ELSE
  LET h == PointsOf(SubSeq(f, 1, Len(f) - 1)) l == PointsOne(f[Len(f)]) nl == Len(l) IN
  [k \in 1..(Len(h) * nl) |-> LET a == h[((k - 1) \div nl) + 1] b == l[((k - 1) % nl) + 1] IN <<a[1] \o b[1], a[2] \o b[2]>>]
Points(m) == PointsOf(Factors(m))
Width(m) == IF m.t \in Periodic THEN 3 ELSE 1
RECURSIVE ValidIn(_, _)
ValidIn(f, i) == f = <<>> \/ (ValidOne(Head(f), SubSeq(i, 1, Width(Head(f)))) /\ ValidIn(Tail(f), SubSeq(i, Width(Head(f)) + 1, Len(i))))
Valid(m, i) == ValidIn(Factors(m), i)

\* ---- values: Matsubara frequencies in units of pi, momenta in units of 2 pi
LinVal(m, i) == IF m.n = 1 THEN Lo(m) ELSE RAdd(Lo(m), RDivI(RMulI(RAdd(Hi(m), <<-Lo(m)[1], Lo(m)[2]>>), i), m.n - 1))
HasValue(m) == m.t \in Linear \cup Periodic \cup {"imfreq"}
Value(m, i) ==
  CASE m.t \in Linear -> <<LinVal(m, i[1])>>
    [] m.t = "imfreq" -> <<RZero, R((2 * i[1] + (IF m.s = "F" THEN 1 ELSE 0)) * m.beta[2], m.beta[1])>>
    [] m.t = "cyclat" -> Position(m.u, [k \in 1..3 |-> <<i[k], 1>>])
    [] m.t = "brzone" -> Momentum(m.u, [k \in 1..3 |-> R(i[k], m.d[k])])
    [] OTHER -> <<>>

\* ---- closest points
Fl(x) == x[1] \div x[2]
LinDist(m, i, x) == LET z == RAdd(LinVal(m, i), <<-x[1], x[2]>>) IN <<AbsI(z[1]), z[2]>>
\* coordinates of a momentum in units of the mesh
Grid(m, k) == LET c == MomCoord(m.u, k) IN [i \in 1..3 |-> RMulI(c[i], m.d[i])]
LcmR(a, b) == (a \div Gcd(a, b)) * b
Near(m) == IF Dim(m.u) = 3 THEN -1..2 ELSE -3..4
Candidates(m) == {<<a, b, c>> \in Near(m) \X (IF Dim(m.u) > 1 THEN Near(m) ELSE {0}) \X (IF Dim(m.u) > 2 THEN Near(m) ELSE {0}) : TRUE}
\* squared lengths (in some unit) of the momenta with grid coordinates w - f - t, w rational, f and t integer
Gram(m) == [a \in 1..3 |-> [b \in 1..3 |-> Dot(Dual(m.u, a), Dual(m.u, b))]]
Dists(m, w, f) ==
  LET D == LcmR(LcmR(w[1][2], w[2][2]), w[3][2])
      L == LcmR(LcmR(m.d[1], m.d[2]), m.d[3])
      G == TLCEval(Gram(m))
      o == TLCEval([i \in 1..3 |-> (w[i][1] * (D \div w[i][2]) - D * f[i]) * (L \div m.d[i])])
      s == TLCEval([i \in 1..3 |-> D * (L \div m.d[i])])
      n == Dim(m.u)
      d2(a, b, c) == a * a * G[1][1] + (IF n > 1 THEN b * b * G[2][2] + 2 * a * b * G[1][2] ELSE 0) + (IF n > 2 THEN c * c * G[3][3] + 2 * a * c * G[1][3] + 2 * b * c * G[2][3] ELSE 0)
  IN TLCEval([t \in Candidates(m) |-> d2(o[1] - s[1] * t[1], o[2] - s[2] * t[2], o[3] - s[3] * t[3])])
ClosestSet(m, x) ==
  IF m.t \in Linear THEN {<<i>> : i \in {i \in 0..(m.n - 1) : \A j \in 0..(m.n - 1) : ~ RLess(LinDist(m, j, x), LinDist(m, i, x))}}
  ELSE LET w == TLCEval(Grid(m, x))
           f == TLCEval([i \in 1..3 |-> Fl(w[i])])
           C == Dists(m, w, f)
           b == CHOOSE t \in DOMAIN C : \A q \in DOMAIN C : C[t] <= C[q]
       IN {Wrap(m, [i \in 1..3 |-> f[i] + t[i]]) : t \in {t \in DOMAIN C : C[t] = C[b]}}

\* ---- evaluation: positions and weights
Q(x) == R(x[1], x[2])
One(p) == <<<<p, <<1, 1>>>>>>
Compl(w) == RAdd(<<1, 1>>, <<-w[1], w[2]>>)
Frac(x) == R(x[1] % x[2], x[2])
\* the two neighbours of coordinate x in a direction
Leg(l, x) == \* Legendre polynomials, x rational
  LET P[k \in 0..l] == IF k = 0 THEN <<1, 1>> ELSE IF k = 1 THEN x ELSE RDivI(RAdd(RMulI(RMul(x, P[k - 1]), 2 * k - 1), RMulI(P[k - 2], 1 - k)), k) IN P[l]
RECURSIVE Weights(_, _)
Weights(m, a) ==
  \* a point of another mesh of this kind: wherever its value is
  CASE a[1] = "of" -> LET o == ms[a[2]] IN Weights(m, <<"val", IF m.t = "imfreq" THEN a[3] + FirstIndex(o) ELSE IF m.t = "cyclat" THEN IndexAt(o, a[3]) ELSE IF m.t = "brzone" THEN Value(o, IndexAt(o, a[3])) ELSE LinVal(o, a[3])>>)
    [] a[1] = "pt" -> One(a[2])
    [] a[1] = "idx" -> One(PosOf(m, IF m.t \in Periodic THEN Wrap(m, a[2]) ELSE a[2]))
    [] a[1] = "close" -> One(PosOf(m, CHOOSE i \in ClosestSet(m, IF m.t = "brzone" THEN [k \in 1..3 |-> Q(a[2][k])] ELSE Q(a[2])) : TRUE))
    [] a[1] = "val" /\ m.t = "imfreq" -> One(a[2] - FirstIndex(m))
    [] a[1] = "val" /\ m.t = "cyclat" -> One(PosOf(m, Wrap(m, a[2])))
    [] a[1] = "val" /\ m.t = "legendre" ->
         [l \in 1..m.n |-> <<l - 1, RMul(Leg(l - 1, RAdd(RMulI(Q(a[2]), 2), <<-1, 1>>)), <<m.beta[2], m.beta[1]>>)>>]
    [] a[1] = "val" /\ m.t \in Linear ->
         LET w == RMul(RMulI(RAdd(Q(a[2]), <<-Lo(m)[1], Lo(m)[2]>>), m.n - 1), LET z == RAdd(Hi(m), <<-Lo(m)[1], Lo(m)[2]>>) IN <<z[2], z[1]>>)
             i == IF Fl(w) > m.n - 2 THEN m.n - 2 ELSE Fl(w)
             r == RAdd(w, <<-i, 1>>)
         IN <<<<i, Compl(r)>>, <<i + 1, r>>>>
    [] a[1] = "val" /\ m.t = "brzone" ->
         LET w == TLCEval(Grid(m, [k \in 1..3 |-> Q(a[2][k])]))
             r == [i \in 1..3 |-> Frac(w[i])]
             c(b) == [i \in 1..3 |-> Fl(w[i]) + b[i]]
             bits(k) == <<k % 2, (k \div 2) % 2, k \div 4>>
             wt(b) == RMul(RMul(IF b[1] = 1 THEN r[1] ELSE Compl(r[1]), IF b[2] = 1 THEN r[2] ELSE Compl(r[2])), IF b[3] = 1 THEN r[3] ELSE Compl(r[3]))
         IN [k \in 1..8 |-> <<PosOf(m, Wrap(m, c(bits(k - 1)))), wt(bits(k - 1))>>]
RECURSIVE WSum(_, _, _)
WSum(W, f, k) == IF k = 0 THEN RZero ELSE RAdd(WSum(W, f, k - 1), RMulI(W[k][2], f[W[k][1] + 1]))
WProd(V, W, n) == [k \in 1..(Len(V) * Len(W)) |-> LET v == V[((k - 1) \div Len(W)) + 1] w == W[((k - 1) % Len(W)) + 1] IN <<v[1] * n + w[1], RMul(v[2], w[2])>>]
Evaluated(m, f, x) ==
  LET F == Factors(m)
      W == IF Len(F) = 1 THEN TLCEval(Weights(m, x[1])) ELSE TLCEval(WProd(TLCEval(Weights(F[1], x[1])), TLCEval(Weights(F[2], x[2])), SizeOf(F[2])))
  IN WSum(W, f, Len(W))

\* ---- sums and multiples of points of a Brillouin zone: r is the list of integer combinations of indices
IdxCombo(m, P, c) == [i \in 1..3 |-> c[1] * P[1][i] + c[2] * P[2][i] + c[3] * P[3][i]]
Combos(n) == << <<1, 1, 0>>, <<1, -1, 0>>, <<-1, 0, 0>>, <<n, 0, 0>>, <<1, 1, -1>>, <<n, -n, 1>>, <<-1, n, 0>> >>

\* ---- histories of meshes
Set(id, m) == ms' = [k \in DOMAIN ms \cup {id} |-> IF k = id THEN m ELSE ms[k]]
New(id, m) == Set(id, m)
Copy(id, j) == Set(id, ms[j])
Prod(id, a) == (\A k \in 1..Len(a) : ms[a[k]].t # "prod") /\ Set(id, [t |-> "prod", f |-> [k \in 1..Len(a) |-> ms[a[k]]]])
Positive(id, j) == ms[j].t = "imfreq" /\ Set(id, [ms[j] EXCEPT !.pos = TRUE])
Equal(j, k) == ms[j] = ms[k]
===============================================================================
