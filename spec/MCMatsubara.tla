----------------------------- MODULE MCMatsubara -----------------------------
(* Programs of sums, differences and negations; the frequencies form a group graded by statistics, with values additive. *)
EXTENDS Matsubara, Json
CONSTANTS Ids, Ns, MaxOps
VARIABLES opj, nops
Bs == {<<1, 1>>, <<5, 2>>}
J(r) == opj' = ToJson(r)
Next ==
  /\ nops < MaxOps /\ nops' = nops + 1
  /\ \/ \E i \in Ids, n \in -Ns..Ns, s \in {"F", "B"}, b \in Bs : New(i, n, s, b) /\ J([op |-> "new", id |-> i, n |-> n, s |-> s, b |-> b])
     \/ \E i \in Ids, j, k \in DOMAIN fr : Add(i, j, k) /\ J([op |-> "add", id |-> i, j |-> j, k |-> k])
     \/ \E i \in Ids, j, k \in DOMAIN fr : Sub(i, j, k) /\ J([op |-> "sub", id |-> i, j |-> j, k |-> k])
     \/ \E i \in Ids, j \in DOMAIN fr : Neg(i, j) /\ J([op |-> "neg", id |-> i, j |-> j])
Init == fr = <<>> /\ opj = "{}" /\ nops = 0
Spec == Init /\ [][Next]_<<fr, opj, nops>>
View == <<fr, nops>>
Xor(a, b) == IF a = b THEN "B" ELSE "F"
Homomorphism == \A j, k \in DOMAIN fr : LET f == fr[j] g == fr[k] IN
  f.b = g.b =>
  /\ Value(Sum(f, g)) = Value(f) + Value(g) /\ Value(Diff(f, g)) = Value(f) - Value(g)
  /\ Sum(f, g).s = Xor(f.s, g.s) /\ Diff(f, g).s = Xor(f.s, g.s)
  /\ Sum(f, g) = Sum(g, f) /\ Diff(f, g) = Sum(f, Minus(g)) /\ Diff(Sum(f, g), g) = f /\ Minus(Minus(f)) = f
\* the symmetric fermionic mesh is closed under negation, and so is the bosonic one
Symmetric == \A j \in DOMAIN fr : \A N \in 1..3 : InMesh(fr[j], N, FALSE) => InMesh(Minus(fr[j]), N, FALSE)
===============================================================================
