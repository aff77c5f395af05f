-------------------------------- MODULE Lattice --------------------------------
(* Lattices u = <<rows>> of one, two or three linearly independent integer vectors of that dimension, completed to three dimensions,
   and their dual basis: momenta in units of 2 pi. *)
EXTENDS Rational, SequencesExt, FiniteSets, TLC
Dim(u) == Len(u)
E3(k) == [i \in 1..3 |-> IF i = k THEN 1 ELSE 0]
Row(u, k) == IF k <= Dim(u) THEN [i \in 1..3 |-> IF i <= Dim(u) THEN u[k][i] ELSE 0] ELSE E3(k)
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Det(u) == Dot(Row(u, 1), Cross(Row(u, 2), Row(u, 3)))
Independent(u) == Det(u) # 0
\* Det(u) times the k-th vector of the dual basis
Dual(u, k) == LET i == (k % 3) + 1 j == ((k + 1) % 3) + 1 IN Cross(Row(u, i), Row(u, j))
DualVec(u, k) == [i \in 1..3 |-> R(Dual(u, k)[i], Det(u))]
\* linear combinations: integer or rational coefficients c
VAdd(v, w) == [i \in 1..3 |-> RAdd(v[i], w[i])]
VScale(v, c) == [i \in 1..3 |-> R(v[i][1] * c[1], v[i][2] * c[2])]
VZero == <<RZero, RZero, RZero>>
IntVec(v) == [i \in 1..3 |-> <<v[i], 1>>]
RECURSIVE Combine(_, _, _)
Combine(n, B, c) == IF n = 0 THEN VZero ELSE VAdd(Combine(n - 1, B, c), VScale(B[n], c[n]))
Position(u, c) == Combine(Dim(u), [k \in 1..Dim(u) |-> IntVec(Row(u, k))], c)
Momentum(u, c) == Combine(Dim(u), [k \in 1..Dim(u) |-> DualVec(u, k)], c)
RDot(v, w) == RAdd(R(v[1][1] * w[1][1], v[1][2] * w[1][2]), RAdd(R(v[2][1] * w[2][1], v[2][2] * w[2][2]), R(v[3][1] * w[3][1], v[3][2] * w[3][2])))
\* coordinates of a momentum with respect to the dual basis, of a position with respect to the basis
MomCoord(u, k) == [i \in 1..3 |-> RDot(k, IntVec(Row(u, i)))]
PosCoord(u, r) == [i \in 1..3 |-> RDot(r, DualVec(u, i))]
================================================================================
