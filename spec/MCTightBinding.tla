---------------------------- MODULE MCTightBinding ----------------------------
(* All histories of a few lattices, zones and models; hermiticity and periodicity of every accepted model. *)
EXTENDS TightBinding, Json
CONSTANTS Ids, MaxOps, MaxTerms
VARIABLES opj, nops
Lat == {<<<<2>>>>, <<<<2, 1>>, <<1, 2>>>>, <<<<1, 2>>, <<2, 4>>>>, <<<<0, 1, 1>>, <<1, 0, 1>>, <<1, 1, 0>>>>, <<<<1, 0, 1>>, <<0, 1, 0>>, <<1, 1, 1>>>>}
PosSet == {<<<<RZero, RZero, RZero>>>>, <<<<RZero, RZero, RZero>>, <<<<1, 2>>, RZero, RZero>>>>}
Names(p) == [k \in 1..Len(p) |-> IF k = 1 THEN "a" ELSE "b"]
Disp(n) == [1..n -> {-1, 0, 1}]
Ms(n) == IF n = 1 THEN {<<<<<<1, 0>>>>>>, <<<<<<1, 1>>>>>>, <<<<<<1, -1>>>>>>}
         ELSE {<<<<<<0, 0>>, <<1, 2>>>>, <<<<1, -2>>, <<-1, 0>>>>>>, <<<<<<0, 0>>, <<0, 1>>>>, <<<<0, 0>>, <<2, 0>>>>>>, <<<<<<0, 0>>, <<0, 0>>>>, <<<<0, -1>>, <<2, 0>>>>>>}
FewDisp(n) == {d \in Disp(n) : \A k \in 2..n : d[k] = 0 \/ d[k] = -d[1]}
Terms(b) == {[r |-> r, m |-> m] : r \in FewDisp(Dim(b.u)), m \in Ms(NOrb(b))}
\* lists of different displacements
Lists(b) == {h \in UNION {[1..k -> Terms(b)] : k \in 0..MaxTerms} : \A i, j \in DOMAIN h : i # j => h[i].r # h[j].r}
J(r) == opj' = ToJson(r)
Next ==
  /\ nops < MaxOps /\ nops' = nops + 1
  /\ \/ \E i \in Ids, u \in Lat, p \in PosSet : NewLattice(i, u, p, Names(p), LatticeOk(u)) /\ J([op |-> "bl", id |-> i, u |-> u, pos |-> p, nm |-> Names(p)])
     \/ \E i \in Ids, j \in DOMAIN ls : NewZone(i, j) /\ J([op |-> "bz", id |-> i, j |-> j])
     \/ \E i \in Ids, j \in DOMAIN ls : ls[j].t = "bl" /\ \E h \in Lists(ls[j]) : NewModel(i, j, h, Len(h), ModelOk(ls[j], h, Len(h))) /\ J([op |-> "tb", id |-> i, j |-> j, h |-> h, nm |-> Len(h)])
     \/ \E i \in Ids, j \in DOMAIN ls : Copy(i, j) /\ J([op |-> "copy", id |-> i, j |-> j])
Init == ls = <<>> /\ opj = "{}" /\ nops = 0
Spec == Init /\ [][Next]_<<ls, opj, nops>>
View == <<ls, nops>>
Ks == {<<a, b, 3>> : a \in {0, 5, 12}, b \in {0, 7}}
Models == {i \in DOMAIN ls : ls[i].t = "tb"}
Hermitian == \A i \in Models : \A k \in Ks : LET A == Fourier(ls[i], k) IN SameMatrix(A, Dagger(A))
PeriodicK == \A i \in Models : \A k \in Ks : \A x \in 1..3 : Fourier(ls[i], k) = Fourier(ls[i], [k EXCEPT ![x] = @ + 24])
\* the value at the origin is the sum of all hoppings
Origin == \A i \in Models : \A a, b \in 1..NOrb(ls[i].b) : Element(ls[i].h, <<0, 0, 0>>, a, b) =
            <<Unit * SumI([n \in 1..Len(ls[i].h) |-> ls[i].h[n].m[a][b][1]]), Unit * SumI([n \in 1..Len(ls[i].h) |-> ls[i].h[n].m[a][b][2]])>>
DualOk == \A i \in DOMAIN ls : LET u == LatOf(ls[i]).u IN
  /\ \A a, b \in 1..Dim(u) : RDot(DualVec(u, a), IntVec(Row(u, b))) = (IF a = b THEN <<1, 1>> ELSE RZero)
  /\ \A c \in {<<<<1, 1>>, <<-2, 1>>, <<1, 2>>>>, <<RZero, <<3, 1>>, <<1, 1>>>>} : LET cc == [k \in 1..3 |-> IF k <= Dim(u) THEN c[k] ELSE RZero] IN
       PosCoord(u, Position(u, cc)) = cc /\ MomCoord(u, Momentum(u, cc)) = cc
===============================================================================
