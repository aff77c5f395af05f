------------------------------ MODULE AtomDiag ------------------------------
(* Exact diagonalisation: the partition of the Fock space into invariant subspaces, operators between them, states,
   expectation values, quantum numbers and thermal Green's functions.  Everything is in the Fock basis. *)
EXTENDS Fermions
Pt == INSTANCE Partition
VARIABLE at
Nothing == [ready |-> FALSE]
\* ------------------------------------------------------------------ the Fock space
Bits(n, x) == {p \in 0..(n - 1) : (x \div 2 ^ p) % 2 = 1}
RECURSIVE Num(_)
Num(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN 2 ^ p + Num(S \ {p})
AllFock(n) == SUBSET (0..(n - 1))
Table(F, n, pos) == TLCEval([f \in AllFock(n) |-> Act(F, Single(f, One), pos)])
Edges(F, n, pos) == LET t == Table(F, n, pos) IN {<<Num(f), Num(g)>> : <<f, g>> \in UNION {{<<f, g>> : g \in DOMAIN t[f]} : f \in AllFock(n)}}
Mode(x, n, pos) == Edges(Single(<<x>>, One), n, pos)
Ladders(n, pos) == TLCEval({Mode(x, n, pos) : x \in (1..n) \cup {-k : k \in 1..n}})
\* the finest partition which H and the hybridisation respect and on which every c, c^+ maps a subspace into one subspace
Auto(H, Hyb, n, pos) == Pt!Coarsen(Pt!LinkAll(Pt!Singletons(2 ^ n), Edges(H, n, pos) \cup Edges(Hyb, n, pos)), Ladders(n, pos))
ClassSets(c, n) == {{Bits(n, x) : x \in B} : B \in Pt!Blocks(c)}
Within(S, nmin, nmax) == {f \in S : Cardinality(f) >= nmin /\ Cardinality(f) <= nmax}
\* quantum numbers of a Fock state
Expect(F, f, pos) == At(Act(F, Single(f, One), pos), f)
QnOf(qs, f, pos) == [i \in 1..Len(qs) |-> Expect(qs[i], f, pos)[1]]
QnReal(qs, n, pos) == \A f \in AllFock(n), i \in 1..Len(qs) : Expect(qs[i], f, pos)[2] = 0
QnBlocks(qs, n, pos) == LET q == TLCEval([f \in AllFock(n) |-> QnOf(qs, f, pos)]) IN {{f \in AllFock(n) : q[f] = v} : v \in {q[f] : f \in AllFock(n)}}
Comp(Bs, n) == [x \in 0..(2 ^ n - 1) |-> CHOOSE y \in 0..(2 ^ n - 1) : LET B == CHOOSE B \in Bs : Bits(n, x) \in B IN Bits(n, y) \in B /\ \A z \in B : y <= Num(z)]
QnWorks(qs, n, pos) == QnReal(qs, n, pos) /\ LET c == TLCEval(Comp(QnBlocks(qs, n, pos), n)) IN \A E \in Ladders(n, pos) : Pt!Functional(c, E)
Partitioned(o, n, pos) == IF o.ctor = "qn" THEN QnBlocks(o.qns, n, pos) ELSE {B \in {Within(C, o.nmin, o.nmax) : C \in ClassSets(Auto(o.h, o.hyb, n, pos), n)} : B # {}}
\* o.blocks lists the subspaces, each the list of its Fock states
Diagonalise(o, n, pos, ok, blocks) ==
  /\ ok = (o.ctor = "qn" => QnWorks(o.qns, n, pos))
  /\ IF ok
     THEN LET want == TLCEval(Partitioned(o, n, pos)) IN
          /\ {Range(blocks[b]) : b \in 1..Len(blocks)} = want /\ Len(blocks) = Cardinality(want)
          /\ \A b \in 1..Len(blocks) : Len(blocks[b]) = Cardinality(Range(blocks[b]))
          /\ at' = [ready |-> TRUE, h |-> o.h, n |-> n, pos |-> pos, blocks |-> blocks, kept |-> UNION want, o |-> o,
                    ht |-> LET t == Table(o.h, n, pos) K == UNION want IN TLCEval([f \in K |-> [g \in DOMAIN t[f] \cap K |-> t[f][g]]])]
     ELSE UNCHANGED at
\* ------------------------------------------------------------------ operators on the subspaces
Keep(psi, K) == [f \in DOMAIN psi \cap K |-> psi[f]]
NB(a) == Len(a.blocks)
BlockOf(a, f) == CHOOSE b \in 1..NB(a) : f \in Range(a.blocks[b])
OnBlock(a, F, b) == TLCEval([i \in 1..Len(a.blocks[b]) |-> Keep(Act(F, Single(a.blocks[b][i], One), a.pos), a.kept)])
ImagesOf(cols) == UNION {DOMAIN cols[i] : i \in DOMAIN cols}
Targets(a, cols) == {BlockOf(a, f) : f \in ImagesOf(cols)}
\* the matrix with these columns, its rows the states of subspace to
Matrix(a, cols, to) == [r \in 1..Len(a.blocks[to]) |-> [i \in 1..Len(cols) |-> At(cols[i], a.blocks[to][r])]]
Shows(a, cols, to, m) == LET T == Targets(a, cols) IN IF T = {} THEN to = -1 /\ m = <<>> ELSE T = {to + 1} /\ m = Matrix(a, cols, to + 1)
MonoCols(a, m, b) == OnBlock(a, Single(m, One), b)
TermTargets(a, F, b) == UNION {Targets(a, MonoCols(a, m, b)) : m \in DOMAIN F}
OpMatOk(a, F) == \A b \in 1..NB(a) : Cardinality(TermTargets(a, F, b)) <= 1
\* terms may cancel, which leaves the connection and a vanishing matrix
OpMatShows(a, F, r) == Len(r) = NB(a) /\ \A b \in 1..NB(a) : LET T == TermTargets(a, F, b) IN
  IF T = {} THEN r[b].to = -1 ELSE T = {r[b].to + 1} /\ r[b].m = Matrix(a, OnBlock(a, F, b), r[b].to + 1)
ActRestricted(a, F, psi) == Keep(Act(F, Keep(psi, a.kept), a.pos), a.kept)
\* trace of rho and an operator: rho is a set of <<f, g, z>>, of which only the entries within a subspace count
TraceRho(a, R, F) == FoldSet(LAMBDA x, acc : CAdd(acc, CMul(x[3], At(Act(F, Single(x[1], One), a.pos), x[2]))), Zero,
                             {x \in R : x[1] \in a.kept /\ x[2] \in a.kept /\ BlockOf(a, x[1]) = BlockOf(a, x[2])})
Commutes(F, G) == Prod(F, G) = Prod(G, F)
KeepsBlocks(a, F) == \A b \in 1..NB(a) : Targets(a, OnBlock(a, F, b)) \subseteq {b}
BlockTrace(a, F, b) == FoldSet(LAMBDA f, acc : acc + Expect(F, f, a.pos)[1], 0, Range(a.blocks[b]))
\* ------------------------------------------------------------------ thermal averages: linear maps given on the Fock states
Lin(M, psi) == Sum(DOMAIN psi, LAMBDA f : Times(psi[f], M[f]))
LinMap(S, f(_)) == TLCEval([x \in S |-> f(x)])
LadderMap(a, K, x) == LinMap(a.kept, LAMBDA f : IF f \in K THEN Keep(Act(Single(<<x>>, One), Single(f, One), a.pos), K) ELSE Empty)
Then(a, M, N) == LinMap(a.kept, LAMBDA f : Lin(M, N[f]))
AddMap(a, M, N) == LinMap(a.kept, LAMBDA f : Plus(M[f], N[f]))
Commutator(a, M, N) == LinMap(a.kept, LAMBDA f : Minus(Lin(M, N[f]), Lin(N, M[f])))
TraceMap(a, M) == FoldSet(LAMBDA f, acc : CAdd(acc, At(M[f], f)), Zero, a.kept)
RECURSIVE Nested(_, _, _)
Nested(a, c, p) == IF p = 0 THEN c ELSE Commutator(a, Nested(a, c, p - 1), a.ht)
\* the p-th moment of the spectral function of <c_x c^+_y>: Tr rho {[...[c, H], H ...], c^+}; the poles are differences of eigenvalues
Moment(a, K, rho, x, y, p) == LET c == TLCEval(Nested(a, LadderMap(a, K, -x), p)) cd == LadderMap(a, K, y) IN
  TraceMap(a, Then(a, rho, AddMap(a, Then(a, c, cd), Then(a, cd, c))))
\* Tr(X c Y c^+)
Correlator(a, K, X, Y, x, y) == TraceMap(a, Then(a, X, Then(a, LadderMap(a, K, -x), Then(a, Y, LadderMap(a, K, y)))))
==============================================================================
