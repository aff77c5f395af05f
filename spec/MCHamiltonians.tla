---------------------------- MODULE MCHamiltonians ----------------------------
(* The defining sums have the symmetries they are used for. *)
EXTENDS Hamiltonians
CONSTANTS Norb, Vals, Ls
VARIABLE t
Init == t \in [n : 1..Norb, U : Vals, Up : Vals, J : Vals]
Next == UNCHANGED t
Spec == Init /\ [][Next]_t
HK == Kanamori(2, t.n, KanU(t.n, t.U, t.J, t.Up), KanUp(t.n, t.U, t.J, t.Up), t.J)
HS(Jc) == Slater(2, t.n, AsComplex4(t.n, Kan4(t.n, t.U, t.J, t.Up, Jc)))
Hermitian == IsHermitian(HK) /\ IsHermitian(Spin2(t.n)) /\ \A c \in {"x", "y", "z"} : IsHermitian(Spin(c, t.n))
\* the Kanamori form is the Slater form of the tensor with U, U', J, J
SameForm == HK = HS(t.J)
Conserves == \A F \in {Number(2, t.n), Spin("+", t.n), Spin("z", t.n), Spin2(t.n)} : Commutator(HK, F) = Empty
\* orbital rotations: L_z = -i (c+_1 c_2 - c+_2 c_1) is conserved when U = U' + 2 J
Lz == IF t.n < 2 THEN Empty ELSE OneBody(2, t.n, LAMBDA s1, o1, s2, o2 : IF s1 # s2 THEN Zero ELSE IF o1 = 1 /\ o2 = 2 THEN <<0, -4>> ELSE IF o1 = 2 /\ o2 = 1 THEN <<0, 4>> ELSE Zero)
Rotational == t.U = t.Up + 2 * t.J => Commutator(HK, Lz) = Empty
SpinAlgebra == /\ Commutator(Spin("x", t.n), Spin("y", t.n)) = Times(<<0, 4>>, Spin("z", t.n))
               /\ Spin("+", t.n) = Plus(Spin("x", t.n), Times(<<0, 1>>, Spin("y", t.n)))
               /\ Dagger(Spin("+", t.n)) = Spin("-", t.n)
Densities == DiagonalPart(HK) = Density(2, t.n, KanU(t.n, t.U, t.J, t.Up), KanUp(t.n, t.U, t.J, t.Up))
\* 3j symbols: normalisation and symmetry
RSumSet(S, f(_)) == FoldSet(LAMBDA x, a : Q!RAdd(a, f(x)), Q!RZero, S)
Js == 0..4
ASSUME \A j1, j2, j3 \in 0..3 : Triangle(j1, j2, j3) => \A m3 \in -j3..j3 :
         Q!RMulI(RSumSet((-j1)..j1, LAMBDA m1 : ThreeJ(j1, m1, j2, -m3 - m1, j3, m3)[2]), 2 * j3 + 1) = <<1, 1>>
ASSUME \A j1, j2, j3 \in 0..3 : \A m1 \in -j1..j1, m2 \in -j2..j2 : LET m3 == -m1 - m2 IN (m3 \in -j3..j3) =>
         /\ ThreeJ(j1, m1, j2, m2, j3, m3) = ThreeJ(j2, m2, j3, m3, j1, m1)
         /\ LET a == ThreeJ(j1, m1, j2, m2, j3, m3) b == ThreeJ(j2, m2, j1, m1, j3, m3) IN b = <<a[1] * MinusOne(j1 + j2 + j3), a[2]>>
\* textbook values: c^2(dd), c^4(dd), c^6(ff)
ASSUME Gaunt(2, 2, 2, 2) = <<-1, <<4, 49>>>> /\ Gaunt(2, 2, 1, -1) = <<-1, <<6, 49>>>> /\ Gaunt(2, 4, 0, 0) = <<1, <<4, 49>>>> /\ Gaunt(2, 4, 2, -2) = <<1, <<10, 63>>>>
ASSUME Gaunt(1, 2, 1, -1) = <<-1, <<6, 25>>>> /\ Gaunt(1, 2, 1, 0) = <<1, <<3, 25>>>> /\ AlphaDir(2, 2, 0, 0) = <<4, 49>>
\* the average of the direct integrals over all pairs is F0
ASSUME \A l \in Ls : \A k \in {2, 4, 6} : k <= 2 * l => RSumSet((-l)..l, LAMBDA m : RSumSet((-l)..l, LAMBDA mp : AlphaDir(l, k, m, mp))) = Q!RZero
===============================================================================
