----------------------------- MODULE SuperLattice -----------------------------
(* Lattices Z^d with hopping matrices t(r), and super-lattices on them: the rows of an integer matrix U span a sublattice, the
   base points x in the half-open cell of U are the sites of the cluster, every base point is x = cs_a + R U for exactly one
   (R, a), and a function on the base folds to F(R)[(a,i),(b,j)] = sum of t(r)[i][j] over r with cs_a + r = cs_b + R U.
   Complex numbers are pairs of integers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt
Zero == <<0, 0>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(a) == <<a[1], -a[2]>>
CSum(S, f(_)) == FoldSet(LAMBDA x, a : CAdd(a, f(x)), Zero, S)
ISum(S, f(_)) == FoldSet(LAMBDA x, a : a + f(x), 0, S)
VAdd(x, y) == [k \in 1..Len(x) |-> x[k] + y[k]]
VSub(x, y) == [k \in 1..Len(x) |-> x[k] - y[k]]
VNeg(x) == [k \in 1..Len(x) |-> -x[k]]
Origin(d) == [k \in 1..d |-> 0]
\* R U
Span(U, R) == [c \in 1..Len(U) |-> ISum(1..Len(U), LAMBDA r : R[r] * U[r][c])]
Det(U) == CASE Len(U) = 1 -> U[1][1]
            [] Len(U) = 2 -> U[1][1] * U[2][2] - U[1][2] * U[2][1]
            [] Len(U) = 3 -> U[1][1] * (U[2][2] * U[3][3] - U[2][3] * U[3][2]) - U[1][2] * (U[2][1] * U[3][3] - U[2][3] * U[3][1]) + U[1][3] * (U[2][1] * U[3][2] - U[2][2] * U[3][1])
\* adjugate: U Adj(U) = Det(U); element (r, c) is the cofactor of (c, r)
Rest(d, k) == SelectSeq([q \in 1..d |-> q], LAMBDA q : q # k)
Cofactor(U, r, c) == LET d == Len(U) rr == Rest(d, r) cc == Rest(d, c) IN
  (IF (r + c) % 2 = 0 THEN 1 ELSE -1) * (IF d = 1 THEN 1 ELSE Det([p \in 1..(d - 1) |-> [q \in 1..(d - 1) |-> U[rr[p]][cc[q]]]]))
Adj(U) == [r \in 1..Len(U) |-> [c \in 1..Len(U) |-> Cofactor(U, c, r)]]
Sg(n) == IF n < 0 THEN -1 ELSE 1
Ab(n) == IF n < 0 THEN -n ELSE n
\* coordinates of x in the basis U, times |Det|
Scaled(U, x) == LET A == Adj(U) s == Sg(Det(U)) IN [c \in 1..Len(U) |-> s * ISum(1..Len(U), LAMBDA r : x[r] * A[r][c])]
Cell(U, x) == [c \in 1..Len(U) |-> Scaled(U, x)[c] \div Ab(Det(U))]
Inside(U, x) == Cell(U, x) = Origin(Len(U))
Reach(U) == Max({ISum(1..Len(U), LAMBDA r : Ab(U[r][c])) : c \in 1..Len(U)})
Sites(U) == {x \in [1..Len(U) -> (-Reach(U))..Reach(U)] : Inside(U, x)}
\* the cluster site of x
Home(U, x) == VSub(x, Span(U, Cell(U, x)))
\* numbers of sites: cs is a sequence of them
Number(cs, x) == CHOOSE a \in 1..Len(cs) : cs[a] = x
Index(N, a, i) == a + (i - 1) * N
Orb(N, k) == (k - 1) \div N + 1
Site(N, k) == ((k - 1) % N) + 1
\* t is a function from displacements to matrices
Fold(U, cs, t) ==
  LET N == Len(cs) no == IF DOMAIN t = {} THEN 0 ELSE Len(t[CHOOSE r \in DOMAIN t : TRUE])
      to == [p \in (1..N) \X DOMAIN t |-> VAdd(cs[p[1]], p[2])]
      cell == [p \in DOMAIN to |-> Cell(U, to[p])]
      home == [p \in DOMAIN to |-> Number(cs, VSub(to[p], Span(U, cell[p])))]
  IN [R \in {cell[p] : p \in DOMAIN to} |->
      [k \in 1..(N * no) |-> [l \in 1..(N * no) |->
        CSum({r \in DOMAIN t : cell[<<Site(N, k), r>>] = R /\ home[<<Site(N, k), r>>] = Site(N, l)}, LAMBDA r : t[r][Orb(N, k)][Orb(N, l)])]]]
Vanish(M) == \A k \in DOMAIN M : \A l \in DOMAIN M[k] : M[k][l] = Zero
Support(F) == [R \in {x \in DOMAIN F : ~Vanish(F[x])} |-> F[R]]
NoInternal(F, d) == [R \in DOMAIN F \ {Origin(d)} |-> F[R]]
\* ---- facts
Hermitian(t) == \A r \in DOMAIN t : VNeg(r) \in DOMAIN t /\ \A i, j \in DOMAIN t[r] : t[VNeg(r)][j][i] = Conj(t[r][i][j])
Total(t, i) == CSum({<<r, j>> : r \in DOMAIN t, j \in DOMAIN t[CHOOSE r \in DOMAIN t : TRUE]}, LAMBDA p : t[p[1]][i][p[2]])
RowTotal(F, k) == CSum({<<R, l>> : R \in DOMAIN F, l \in DOMAIN F[CHOOSE R \in DOMAIN F : TRUE]}, LAMBDA p : F[p[1]][k][p[2]])
===============================================================================
