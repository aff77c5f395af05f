------------------------------- MODULE MCMerge -------------------------------
(* Running means and sums of squared deviations <<n, M, Q>>, kept by each rank for the samples it holds and merged over the ranks:
   whatever rank receives which sample and whatever the order of merging, the result is the one of the textbook formulas on all samples. *)
EXTENDS Rational, FiniteSets, TLC
CONSTANTS Ranks, MaxSamples
Values == -2..3
VARIABLES st, seen
None == [n |-> 0, M |-> RZero, Q |-> RZero]
\* one more sample (the running update)
Push(t, x) ==
  LET k == t.n + 1 d == RSub(<<x, 1>>, t.M) IN
  [n |-> k, M |-> RAdd(t.M, RDivI(d, k)), Q |-> RAdd(t.Q, RDivI(RMulI(RMul(d, d), k - 1), k))]
\* two groups of samples
Merge(s, t) ==
  IF s.n = 0 THEN t ELSE IF t.n = 0 THEN s ELSE
  LET n == s.n + t.n d == RSub(s.M, t.M) IN
  [n |-> n, M |-> RDivI(RAdd(RMulI(s.M, s.n), RMulI(t.M, t.n)), n), Q |-> RAdd(RAdd(s.Q, t.Q), RDivI(RMulI(RMul(d, d), s.n * t.n), n))]
\* deviations of the ranks from the mean of all, as the reduction over ranks computes it: each rank contributes Q_r + n_r (M_r - M)^2
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN RZero ELSE LET r == CHOOSE r \in S : TRUE IN RAdd(f[r], Sum(S \ {r}, f))
RECURSIVE Count(_)
Count(S) == IF S = {} THEN 0 ELSE LET r == CHOOSE r \in S : TRUE IN st[r].n + Count(S \ {r})
Reduced ==
  LET n == Count(Ranks) m == RDivI(Sum(Ranks, [r \in Ranks |-> RMulI(st[r].M, st[r].n)]), n) IN
  [n |-> n, M |-> m, Q |-> Sum(Ranks, [r \in Ranks |-> RAdd(st[r].Q, RMulI(RMul(RSub(st[r].M, m), RSub(st[r].M, m)), st[r].n))])]
RECURSIVE InOrder(_)
InOrder(p) == IF p = <<>> THEN None ELSE Merge(InOrder(Tail(p)), st[Head(p)])
Orders == {p \in [1..Cardinality(Ranks) -> Ranks] : \A i, j \in 1..Cardinality(Ranks) : i # j => p[i] # p[j]}
Exact == LET n == Len(seen) s == SumI(seen) IN [n |-> n, M |-> R(s, n), Q |-> R(SumI([i \in 1..n |-> (n * seen[i] - s) * (n * seen[i] - s)]), n * n)]
Init == st = [r \in Ranks |-> None] /\ seen = <<>>
Next == Len(seen) < MaxSamples /\ \E r \in Ranks, x \in Values : st' = [st EXCEPT ![r] = Push(@, x)] /\ seen' = Append(seen, x)
Spec == Init /\ [][Next]_<<st, seen>>
Right == seen # <<>> => Reduced = Exact /\ \A p \in Orders : InOrder(p) = Exact
==============================================================================
