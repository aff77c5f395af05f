----------------------------- MODULE Hamiltonians -----------------------------
(* The defining sums of interaction Hamiltonians and observables, as operators over the modes (spin, orbital); mode numbers
   run over the orbitals of the first spin, then of the second, ...  All operators are given times 4, which makes them integer.
   Angular momentum: 3j symbols as a sign and a rational square. *)
EXTENDS Fermions
Q == INSTANCE Rational
Mode(n, s, o) == (s - 1) * n + o
Spins(ns) == 1..ns
Orbs(n) == 1..n
Op(n, w, z) == Times(z, NormalOrder(w))
SumOver(S, f(_)) == Sum(S, f)
Cr(n, s, o) == Mode(n, s, o)
An(n, s, o) == -Mode(n, s, o)
\* 1/2 sum U_ijkl c+_is c+_js' c_ls' c_ks  (U[i][j][k][l], complex)
Slater(ns, n, U) == SumOver(Spins(ns) \X Spins(ns) \X Orbs(n) \X Orbs(n) \X Orbs(n) \X Orbs(n),
  LAMBDA t : LET z == U[t[3]][t[4]][t[5]][t[6]] IN IF z = Zero THEN Empty ELSE Op(n, <<Cr(n, t[1], t[3]), Cr(n, t[2], t[4]), An(n, t[2], t[6]), An(n, t[1], t[5])>>, CScale(2, z)))
\* 1/2 sum over (is) # (js') of U_ij^{ss'} n_is n_js'
Density(ns, n, U, Up) == SumOver({t \in Spins(ns) \X Spins(ns) \X Orbs(n) \X Orbs(n) : <<t[1], t[3]>> # <<t[2], t[4]>>},
  LAMBDA t : LET u == IF t[1] = t[2] THEN U[t[3]][t[4]] ELSE Up[t[3]][t[4]] IN Op(n, <<Cr(n, t[1], t[3]), An(n, t[1], t[3]), Cr(n, t[2], t[4]), An(n, t[2], t[4])>>, <<2 * u, 0>>))
Pairs(ns, n) == {t \in Spins(ns) \X Spins(ns) \X Orbs(n) \X Orbs(n) : t[1] # t[2] /\ t[3] # t[4]}
SpinFlip(ns, n, J) == SumOver(Pairs(ns, n), LAMBDA t : Op(n, <<Cr(n, t[1], t[3]), An(n, t[2], t[3]), Cr(n, t[2], t[4]), An(n, t[1], t[4])>>, <<-2 * J, 0>>))
PairHop(ns, n, J) == SumOver(Pairs(ns, n), LAMBDA t : Op(n, <<Cr(n, t[1], t[3]), Cr(n, t[2], t[3]), An(n, t[2], t[4]), An(n, t[1], t[4])>>, <<2 * J, 0>>))
Kanamori(ns, n, U, Up, J) == Plus(Density(ns, n, U, Up), Plus(SpinFlip(ns, n, J), PairHop(ns, n, J)))
Number(ns, n) == SumOver(Spins(ns) \X Orbs(n), LAMBDA t : Op(n, <<Cr(n, t[1], t[2]), An(n, t[1], t[2])>>, <<4, 0>>))
\* spin: matrix elements of the component, times 2
Pauli(c) == CASE c = "x" -> <<<<Zero, One>>, <<One, Zero>>>>
              [] c = "y" -> <<<<Zero, <<0, -1>>>>, <<<<0, 1>>, Zero>>>>
              [] c = "z" -> <<<<One, Zero>>, <<Zero, <<-1, 0>>>>>>
              [] c = "+" -> <<<<Zero, <<2, 0>>>>, <<Zero, Zero>>>>
              [] c = "-" -> <<<<Zero, Zero>>, <<<<2, 0>>, Zero>>>>
OneBody(ns, n, f(_, _, _, _)) == SumOver(Spins(ns) \X Orbs(n) \X Spins(ns) \X Orbs(n), LAMBDA t : Op(n, <<Cr(n, t[1], t[2]), An(n, t[3], t[4])>>, f(t[1], t[2], t[3], t[4])))
Spin(c, n) == OneBody(2, n, LAMBDA s1, o1, s2, o2 : IF o1 = o2 THEN CScale(2, Pauli(c)[s1][s2]) ELSE Zero)
\* S^2 = Sx^2 + Sy^2 + Sz^2; the components come times 4
Sixteenth(F) == [m \in DOMAIN F |-> <<F[m][1] \div 4, F[m][2] \div 4>>]
Square(X, Y, Z) == Sixteenth(Plus(Prod(X, X), Plus(Prod(Y, Y), Prod(Z, Z))))
Spin2(n) == Square(Spin("x", n), Spin("y", n), Spin("z", n))
Commutator(F, G) == Minus(Prod(F, G), Prod(G, F))
\* the part of F made of occupation numbers
DiagonalPart(F) == [m \in {x \in DOMAIN F : {x[i] : i \in {j \in 1..Len(x) : x[j] > 0}} = {-x[i] : i \in {j \in 1..Len(x) : x[j] < 0}}} |-> F[m]]
\* extraction of coefficients: the operator given by a table of matrix elements (times 4)
FromH(T) == SumOver(DOMAIN T, LAMBDA i : Times(<<T[i][2], T[i][3]>>, NormalOrder(<<T[i][1][1], -T[i][1][2]>>)))
FromU2(T) == SumOver(DOMAIN T, LAMBDA i : Times(<<T[i][2], T[i][3]>>, NormalOrder(<<T[i][1][1], -T[i][1][1], T[i][1][2], -T[i][1][2]>>)))
FromU4(T) == SumOver(DOMAIN T, LAMBDA i : Times(<<T[i][2], T[i][3]>>, NormalOrder(<<T[i][1][1], T[i][1][2], -T[i][1][4], -T[i][1][3]>>)))
\* ------------------------------------------------------------------ Kanamori parameters
KanU(n, U, J, Up) == [i \in Orbs(n) |-> [j \in Orbs(n) |-> IF i = j THEN 0 ELSE Up - J]]
KanUp(n, U, J, Up) == [i \in Orbs(n) |-> [j \in Orbs(n) |-> IF i = j THEN U ELSE Up]]
Kan4(n, U, J, Up, Jc) == [i \in Orbs(n) |-> [j \in Orbs(n) |-> [k \in Orbs(n) |-> [l \in Orbs(n) |->
   IF i = j /\ j = k /\ k = l THEN U ELSE IF i = k /\ j = l THEN Up ELSE IF i = l /\ j = k THEN J ELSE IF i = j /\ k = l THEN Jc ELSE 0]]]]
AsComplex4(n, U) == [i \in Orbs(n) |-> [j \in Orbs(n) |-> [k \in Orbs(n) |-> [l \in Orbs(n) |-> <<U[i][j][k][l], 0>>]]]]
\* basis change: b+_i = sum_j T_ij a+_j; the transformed tensor written in b is the original one written in a
Rotated(n, T, i) == SumOver(Orbs(n), LAMBDA j : Single(<<j>>, T[i][j]))
InNewBasis(n, T, V) == LET B == [i \in Orbs(n) |-> Rotated(n, T, i)] D == [i \in Orbs(n) |-> Dagger(B[i])]
  IN SumOver(Orbs(n) \X Orbs(n) \X Orbs(n) \X Orbs(n), LAMBDA t : LET z == V[t[1]][t[2]][t[3]][t[4]] IN IF z = Zero THEN Empty ELSE Times(z, Prod(Prod(B[t[1]], B[t[2]]), Prod(D[t[4]], D[t[3]]))))
OneSpin(n, U) == InNewBasis(n, [i \in Orbs(n) |-> [j \in Orbs(n) |-> IF i = j THEN One ELSE Zero]], U)
\* ------------------------------------------------------------------ 3j symbols, as <<sign, square>>
Primes == <<2, 3, 5, 7, 11, 13, 17>>
RECURSIVE Leg(_, _)
Leg(n, p) == IF n < p THEN 0 ELSE n \div p + Leg(n \div p, p)
RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
\* product of factorials of N over product of factorials of D, for integers up to 18
Ratio(N, D) == LET e(p) == FoldSeq(LAMBDA x, a : a + Leg(x, p), 0, N) - FoldSeq(LAMBDA x, a : a + Leg(x, p), 0, D)
                   num == FoldSeq(LAMBDA p, a : IF e(p) > 0 THEN a * Power(p, e(p)) ELSE a, 1, Primes)
                   den == FoldSeq(LAMBDA p, a : IF e(p) < 0 THEN a * Power(p, -e(p)) ELSE a, 1, Primes)
               IN <<num, den>>
RECURSIVE Choose(_, _)
Choose(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 THEN 1 ELSE (Choose(n - 1, k - 1) * n) \div k
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
MinOf(S) == CHOOSE m \in S : \A x \in S : x >= m
Triangle(a, b, c) == c <= a + b /\ c >= (IF a > b THEN a - b ELSE b - a)
AbsJ(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* (all arguments integers here)
ThreeJ(j1, m1, j2, m2, j3, m3) ==
  IF m1 + m2 + m3 # 0 \/ ~Triangle(j1, j2, j3) \/ m1 > j1 \/ -m1 > j1 \/ m2 > j2 \/ -m2 > j2 \/ m3 > j3 \/ -m3 > j3 THEN <<0, Q!RZero>>
  ELSE LET a == j1 + j2 - j3 b == j1 - j2 + j3 c == -j1 + j2 + j3
           S == FoldSet(LAMBDA t, acc : acc + MinusOne(t) * Choose(a, t) * Choose(b, j1 - m1 - t) * Choose(c, j2 + m2 - t), 0, 0..a)
           r == Ratio(<<j1-m1, j1+m1, j2-m2, j2+m2, j3-m3, j3+m3>>, <<j1+j2+j3+1, a, b, c>>)
           s2 == Q!RMulI(Q!RMulI(Q!R(r[1], r[2]), S), S)
       IN <<MinusOne(AbsJ(j1 - j2 - m3)) * Sgn(S), s2>>
RMul(x, y) == LET g == Q!Gcd(x[1], y[2]) h == Q!Gcd(y[1], x[2]) IN IF x[1] = 0 \/ y[1] = 0 THEN Q!RZero ELSE <<(x[1] \div g) * (y[1] \div h), (x[2] \div h) * (y[2] \div g)>>
\* <j1 m1 j2 m2 | j3 m3>
Clebsch(j1, m1, j2, m2, j3, m3) == LET w == ThreeJ(j1, m1, j2, m2, j3, -m3) IN <<w[1] * MinusOne(AbsJ(j1 - j2 + m3)), Q!RMulI(w[2], 2 * j3 + 1)>>
\* Gaunt coefficient c^k(l m, l m'), as sign and square
Gaunt(l, k, m, mp) == LET w == ThreeJ(l, -m, k, m - mp, l, mp) z == ThreeJ(l, 0, k, 0, l, 0) IN <<w[1] * z[1] * MinusOne(AbsJ(m)), Q!RMulI(Q!RMulI(RMul(w[2], z[2]), 2*l+1), 2*l+1)>>
\* alpha(l, k, m1, m2, m3, m4) = c^k(m1, m3) c^k(m4, m2) where m1 + m2 = m3 + m4
Alpha(l, k, m1, m2, m3, m4) == IF m1 + m2 # m3 + m4 THEN <<0, Q!RZero>>
  ELSE LET x == Gaunt(l, k, m1, m3) y == Gaunt(l, k, m4, m2) IN <<x[1] * y[1], RMul(x[2], y[2])>>
RECURSIVE ISqrt(_, _)
ISqrt(x, r) == IF r * r >= x THEN r ELSE ISqrt(x, r + 1)
Root(q) == <<ISqrt(q[1], 0), ISqrt(q[2], 1)>>
IsSquare(q) == LET r == Root(q) IN r[1] * r[1] = q[1] /\ r[2] * r[2] = q[2]
\* direct and exchange integrals are rational
AlphaDir(l, k, m, mp) == LET x == Gaunt(l, k, m, m) y == Gaunt(l, k, mp, mp) IN Q!RMulI(RMul(Root(x[2]), Root(y[2])), x[1] * y[1])
AlphaExc(l, k, m, mp) == Gaunt(l, k, m, mp)[2]
\* ladder operators of an angular momentum (n - 1)/2: row i, column j, squares times 4
LPlus2(n, i, j) == IF i = j + 1 THEN (n - 1) * (n + 1) - (2 * j - n - 1) * (2 * j - n + 1) ELSE 0
===============================================================================
