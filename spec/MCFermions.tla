------------------------------ MODULE MCFermions ------------------------------
(* Normal ordering against the action of the operators on Fock states, and a register machine of operators whose
   registers are tracked both as normal ordered operators and as matrices on the Fock space. *)
EXTENDS Fermions, Json
CONSTANTS NM, NR, MaxTerms, MaxCoef, MaxLen, WordLen, MaxSteps, Track
VARIABLES w, reg, mat, steps, opj
vars == <<w, reg, mat, steps, opj>>
Letters == {x \in -NM..NM : x # 0}
Focks == SUBSET (0..(NM - 1))
Pos == [k \in 1..NM |-> k - 1]
Basis(f) == Single(f, One)
\* matrices: functions from Fock states to states
MatOf(F) == [f \in Focks |-> Act(F, Basis(f), Pos)]
MatMul(A, B) == [f \in Focks |-> Sum(DOMAIN B[f], LAMBDA g : Times(B[f][g], A[g]))]
MatAdd(A, B) == [f \in Focks |-> Plus(A[f], B[f])]
MatTimes(z, A) == [f \in Focks |-> Times(z, A[f])]
MatDag(A) == [f \in Focks |-> Clean([g \in {h \in Focks : f \in DOMAIN A[h]} |-> CConj(A[g][f])])]
\* ------------------------------------------------------------------ words (register part idle)
WInit == w = <<>> /\ reg = <<>> /\ mat = <<>> /\ steps = 0 /\ opj = "{}"
WNext == /\ Len(w) < WordLen /\ \E x \in Letters : w' = <<x>> \o w
         /\ UNCHANGED <<reg, mat, steps, opj>>
WSpec == WInit /\ [][WNext]_vars
WCanonical == \A m \in DOMAIN NormalOrder(w) : Canonical(m) /\ NormalOrder(w)[m] # Zero
WAction == \A f \in Focks : Act(NormalOrder(w), Basis(f), Pos) = LET r == ActSeq(w, [f |-> f, s |-> 1], Pos) IN IF r.s = 0 THEN Empty ELSE Single(r.f, <<r.s, 0>>)
WDagger == Dagger(NormalOrder(w)) = NormalOrder(RevFlip(w)) /\ Dagger(Dagger(NormalOrder(w))) = NormalOrder(w)
WSplit == \A k \in 0..Len(w) : Prod(NormalOrder(SubSeq(w, 1, k)), NormalOrder(SubSeq(w, k + 1, Len(w)))) = NormalOrder(w)
\* ------------------------------------------------------------------ registers
Regs == 1..NR
Scalars == {<<1, 0>>, <<-2, 0>>, <<0, 1>>, <<1, -1>>}
Small(F) == Cardinality(DOMAIN F) <= MaxTerms /\ \A m \in DOMAIN F : Len(m) <= MaxLen /\ F[m][1] \in -MaxCoef..MaxCoef /\ F[m][2] \in -MaxCoef..MaxCoef
Set(d, F, M, op) == /\ Small(F)
                    /\ reg' = [reg EXCEPT ![d] = F] /\ mat' = IF Track THEN [mat EXCEPT ![d] = M] ELSE mat
                    /\ opj' = ToJson(op) /\ w' = w /\ steps' = steps + 1
RInit == w = <<>> /\ reg = [d \in Regs |-> Empty] /\ mat = [d \in Regs |-> MatOf(Empty)] /\ steps = 0 /\ opj = "{}"
RNext ==
  /\ steps < MaxSteps
  /\ \E d \in Regs :
     \/ \E x \in Letters : Set(d, Single(<<x>>, One), MatOf(Single(<<x>>, One)), [op |-> IF x > 0 THEN "cdag" ELSE "c", d |-> d, k |-> IF x > 0 THEN x ELSE -x])
     \/ \E a, b \in Regs :
        \/ Set(d, Plus(reg[a], reg[b]), MatAdd(mat[a], mat[b]), [op |-> "add", d |-> d, a |-> a, b |-> b])
        \/ Set(d, Minus(reg[a], reg[b]), MatAdd(mat[a], MatTimes(<<-1, 0>>, mat[b])), [op |-> "sub", d |-> d, a |-> a, b |-> b])
        \/ Set(d, Prod(reg[a], reg[b]), MatMul(mat[a], mat[b]), [op |-> "mul", d |-> d, a |-> a, b |-> b])
     \/ \E a \in Regs, z \in Scalars :
        \/ Set(d, Times(z, reg[a]), MatTimes(z, mat[a]), [op |-> "muls", d |-> d, a |-> a, re |-> z[1], im |-> z[2]])
        \/ Set(d, Plus(reg[a], Unit(z)), MatAdd(mat[a], MatTimes(z, MatOf(Unit(One)))), [op |-> "adds", d |-> d, a |-> a, re |-> z[1], im |-> z[2]])
     \/ \E a \in Regs : Set(d, Dagger(reg[a]), MatDag(mat[a]), [op |-> "dag", d |-> d, a |-> a])
RView == <<reg, steps>>
RSpec == RInit /\ [][RNext]_vars
\* an operator is determined by its matrix, and the matrix is the one of the matrix algebra
Represents == \A d \in Regs : MatOf(reg[d]) = mat[d]
Faithful == \A d, e \in Regs : (mat[d] = mat[e]) <=> (reg[d] = reg[e])
NormalForm == \A d \in Regs : \A m \in DOMAIN reg[d] : Canonical(m) /\ reg[d][m] # Zero
===============================================================================
