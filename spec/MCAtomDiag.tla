----------------------------- MODULE MCAtomDiag -----------------------------
(* All small Hamiltonians with every way of choosing the subspaces: what the subspaces, the maps between them, expectation
   values and spectral moments must satisfy. *)
EXTENDS AtomDiag, Json
CONSTANTS N, MaxTerms, MaxOps
VARIABLES opj, nops
Id == [k \in 1..N |-> k - 1]
\* hermitian terms
Herm == {Single(<<>>, <<2, 0>>)} \cup {Single(<<k, -k>>, z) : k \in 1..N, z \in {<<1, 0>>, <<-2, 0>>}}
        \cup UNION {LET F == Single(m, z) IN {Plus(F, Dagger(F))} : m \in {x \in {<<i, -j>> : i, j \in 1..N} \cup {<<i, j>> : i, j \in 1..N} : x[1] < (IF x[2] < 0 THEN -x[2] ELSE x[2])}, z \in {<<1, 0>>, <<0, 1>>}}
        \cup UNION {{Single(<<i, j, -j, -i>>, <<1, 0>>)} : <<i, j>> \in {p \in (1..N) \X (1..N) : p[1] < p[2]}}
RECURSIVE Sums(_)
Sums(k) == IF k = 0 THEN {Empty} ELSE LET P == Sums(k - 1) IN P \cup {Plus(x[1], x[2]) : x \in P \X Herm}
Hs == TLCEval(Sums(MaxTerms))
Number(G) == [m \in {<<k, -k>> : k \in G} |-> One]
Conserved(F, G) == Commutes(F, Number(G))
All == 1..N
Sets == {<<>>, <<Number(All)>>} \cup {<<Number({k}), Number(All \ {k})>> : k \in All}
Base == [h |-> Empty, hyb |-> Empty, nmin |-> 0, nmax |-> N, qns |-> <<>>]
Ctors == {[Base EXCEPT !.h = F] @@ [ctor |-> "auto"] : F \in Hs}
         \cup UNION {{[Base EXCEPT !.h = F, !.nmin = a, !.nmax = b] @@ [ctor |-> "filter"] : <<a, b>> \in {p \in (0..N) \X (0..N) : p[1] <= p[2]}} : F \in {G \in Hs : Conserved(G, All)}}
         \cup UNION {{[Base EXCEPT !.h = F, !.qns = q] @@ [ctor |-> "qn"] : q \in {s \in Sets : \A i \in 1..Len(s) : Commutes(F, s[i])}} : F \in Hs}
         \cup {[Base EXCEPT !.h = p[1], !.hyb = p[2]] @@ [ctor |-> "hyb"] : p \in {F \in Hs : Cardinality(DOMAIN F) <= 1} \X Herm}
SetSeq(S) == SetToSortSeq(S, LAMBDA f, g : Num(f) < Num(g))
ListOf(Bs) == SetToSortSeq({SetSeq(B) : B \in Bs}, LAMBDA x, y : Num(x[1]) < Num(y[1]))
Terms(F) == [i \in 1..Cardinality(DOMAIN F) |-> LET m == SetToSeq(DOMAIN F)[i] IN <<m, F[m][1], F[m][2]>>]
J(o) == opj' = ToJson([op |-> "diag", ctor |-> o.ctor, h |-> Terms(o.h), hyb |-> Terms(o.hyb), nmin |-> o.nmin, nmax |-> o.nmax, qns |-> [i \in 1..Len(o.qns) |-> Terms(o.qns[i])]])
Next == nops < MaxOps /\ nops' = nops + 1 /\ \E o \in Ctors : LET ok == o.ctor = "qn" => QnWorks(o.qns, N, Id) IN
          Diagonalise(o, N, Id, ok, IF ok THEN ListOf(Partitioned(o, N, Id)) ELSE <<>>) /\ J(o)
Init == at = Nothing /\ opj = "{}" /\ nops = 0
Spec == Init /\ [][Next]_<<at, opj, nops>>
View == <<at, nops>>
\* ------------------------------------------------------------------ what holds
Disjoint == at.ready => \A b, d \in 1..NB(at) : b # d => Range(at.blocks[b]) \cap Range(at.blocks[d]) = {}
Covers == at.ready => UNION {Range(at.blocks[b]) : b \in 1..NB(at)} = Within(AllFock(N), at.o.nmin, at.o.nmax)
Invariant == at.ready => KeepsBlocks(at, at.h)
LaddersMapBlocks == at.ready => \A x \in (1..N) \cup {-k : k \in 1..N}, b \in 1..NB(at) : Cardinality(Targets(at, MonoCols(at, <<x>>, b))) <= 1
Hermitian == at.ready => \A f, g \in at.kept : At(at.ht[f], g) = CConj(At(at.ht[g], f))
\* the automatic partition refines every partition by quantum numbers of the same Hamiltonian
AutoFinest == at.ready /\ at.o.ctor = "qn" => LET c == Auto(at.h, Empty, N, Id) IN \A C \in ClassSets(c, N) : \E b \in 1..NB(at) : C \subseteq Range(at.blocks[b])
QnConstant == at.ready /\ at.o.ctor = "qn" => \A b \in 1..NB(at) : \A f \in Range(at.blocks[b]) : QnOf(at.o.qns, f, Id) = QnOf(at.o.qns, at.blocks[b][1], Id)
\* with the identity for the density matrix: the zeroth moment of a full space is the anticommutator, every odd moment has the symmetry of particles and holes
One0(a) == LinMap(a.kept, LAMBDA f : Single(f, One))
SumRule == at.ready /\ at.kept = AllFock(N) => \A x, y \in 1..N : Moment(at, at.kept, One0(at), x, y, 0) = IF x = y THEN <<2 ^ N, 0>> ELSE Zero
FirstMoment == at.ready /\ at.kept = AllFock(N) => \A x, y \in 1..N :
   Moment(at, at.kept, One0(at), x, y, 1) = LET F == Plus(Prod(Minus(Prod(Single(<<-x>>, One), at.h), Prod(at.h, Single(<<-x>>, One))), Single(<<y>>, One)), Prod(Single(<<y>>, One), Minus(Prod(Single(<<-x>>, One), at.h), Prod(at.h, Single(<<-x>>, One)))))
                                            IN FoldSet(LAMBDA f, acc : CAdd(acc, Expect(F, f, Id)), Zero, AllFock(N))
==============================================================================
