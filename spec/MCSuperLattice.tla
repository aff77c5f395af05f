---------------------------- MODULE MCSuperLattice ----------------------------
(* A base lattice collects hoppings, then super-lattices are built on it, one on top of the other. *)
EXTENDS SuperLattice, Json
CONSTANTS D, Entries, MaxDet, NOrb, Hops, Amps, MaxHops, MaxLevels
VARIABLES t, U, cs, F, lev, opj
vars == <<t, U, cs, F, lev, opj>>
A1 == {<<1, 2>>, <<3, 0>>}
A2 == {<<1, 2>>, <<0, 0>>}
E1 == {-2, -1, 1, 2, 3}
E2 == {-1, 0, 1, 2}
E3 == {-1, 0, 1}
Mats == [1..NOrb -> [1..NOrb -> Amps]]
Dagger(M) == [i \in 1..NOrb |-> [j \in 1..NOrb |-> Conj(M[j][i])]]
Units == {V \in [1..D -> [1..D -> Entries]] : Det(V) # 0 /\ Ab(Det(V)) <= MaxDet}
Order(S) == SetToSortSeq(S, LAMBDA x, y : \E k \in 1..D : x[k] < y[k] /\ \A q \in 1..(k - 1) : x[q] = y[q])
\* the product of two changes of basis
MatMul(V, W) == [r \in 1..D |-> [c \in 1..D |-> ISum(1..D, LAMBDA q : V[r][q] * W[q][c])]]
Init == t = <<>> /\ U = [r \in 1..D |-> [c \in 1..D |-> IF r = c THEN 1 ELSE 0]] /\ cs = <<Origin(D)>> /\ F = <<>> /\ lev = 0 /\ opj = "{}"
Hop(r, M) == /\ lev = 0 /\ Cardinality(DOMAIN t) < MaxHops /\ r \notin DOMAIN t
             /\ (r = Origin(D) => Dagger(M) = M)
             /\ t' = [x \in DOMAIN t \cup {r, VNeg(r)} |-> IF x = r THEN M ELSE IF x = VNeg(r) THEN Dagger(M) ELSE t[x]]
             /\ F' = t' /\ opj' = ToJson([hop |-> r, m |-> M]) /\ UNCHANGED <<U, cs, lev>>
\* the super-lattice V over the current one; cluster sites of the total: site a of the old cluster in cell b is number b + (a-1)*n
Super(V) == /\ lev < MaxLevels /\ DOMAIN t # {} /\ Ab(Det(V)) * Len(cs) <= MaxDet
            /\ LET new == Order(Sites(V)) n == Len(new) IN
               /\ F' = Fold(V, new, F)
               /\ cs' = [k \in 1..(n * Len(cs)) |-> VAdd(cs[(k - 1) \div n + 1], Span(U, new[((k - 1) % n) + 1]))]
            /\ U' = MatMul(V, U) /\ lev' = lev + 1 /\ opj' = ToJson([super |-> V]) /\ UNCHANGED t
Next == (\E r \in [1..D -> (-Hops)..Hops] : \E M \in Mats : Hop(r, M)) \/ (\E V \in Units : Super(V))
Spec == Init /\ [][Next]_vars
View == <<t, U, cs, F, lev>>
Cover == Cardinality(Sites(U)) = Ab(Det(U))
N == Ab(Det(U))
Partition == Cover /\ \A x \in [1..D -> -3..3] : Home(U, x) \in Sites(U) /\ \A R \in [1..D -> -1..1] : VAdd(Span(U, R), Home(U, x)) = x => R = Cell(U, x)
\* the sites of a tower of super-lattices represent every class once
Classes == {Home(U, cs[k]) : k \in 1..Len(cs)} = Sites(U) /\ Len(cs) = N
Folded == lev > 0
KeepsHermitian == Folded => Hermitian(F)
Conserved == Folded => \A k \in 1..(N * NOrb) : RowTotal(F, k) = Total(t, (k - 1) \div N + 1)
\* every entry of F is the sum of the base hoppings between the places the two indices and the cell stand for
Place(R, k) == VAdd(cs[((k - 1) % N) + 1], Span(U, R))
Direct == Folded => \A R \in DOMAIN F : \A k, l \in 1..(N * NOrb) :
   F[R][k][l] = (LET r == VSub(Place(R, l), cs[((k - 1) % N) + 1]) IN IF r \in DOMAIN t THEN t[r][(k - 1) \div N + 1][(l - 1) \div N + 1] ELSE Zero)
\* plane waves with signs: the sum over the super-lattice reproduces the one over the base
Char(s, x) == IF ISum(1..D, LAMBDA k : s[k] * x[k]) % 2 = 0 THEN 1 ELSE -1
Waves == Folded => \A s \in [1..D -> 0..1] : \A k \in 1..(N * NOrb) : \A j \in 1..NOrb :
   CSum({<<R, b>> : R \in DOMAIN F, b \in 1..N}, LAMBDA p : LET l == p[2] + (j - 1) * N c == Char(s, VSub(Place(p[1], l), cs[((k - 1) % N) + 1])) IN <<c * F[p[1]][k][l][1], c * F[p[1]][k][l][2]>>)
     = CSum(DOMAIN t, LAMBDA r : LET c == Char(s, r) z == t[r][(k - 1) \div N + 1][j] IN <<c * z[1], c * z[2]>>)
===============================================================================
