------------------------------ MODULE Partition ------------------------------
(* Partition of the basis states 0..dim-1 into subspaces: comp[x] is the smallest state of the subspace of x.
   An operator is a set of edges <<i, f>>: its nonzero matrix elements <f|O|i>. *)
EXTENDS Integers, FiniteSets, FiniteSetsExt, Sequences, TLC
Mn(a, b) == IF a < b THEN a ELSE b
Link(c, a, b) == IF c[a] = c[b] THEN c ELSE LET lo == Mn(c[a], c[b]) IN [x \in DOMAIN c |-> IF c[x] \in {c[a], c[b]} THEN lo ELSE c[x]]
LinkAll(c, E) == FoldSet(LAMBDA e, acc : Link(acc, e[1], e[2]), c, E)
Singletons(dim) == [x \in 0..(dim - 1) |-> x]
Blocks(c) == {{x \in DOMAIN c : c[x] = r} : r \in {c[x] : x \in DOMAIN c}}
Reps(c) == {c[x] : x \in DOMAIN c}
IndexOf(c, x) == Cardinality({r \in Reps(c) : r < c[x]})
Finer(c, d) == \A x, y \in DOMAIN c : c[x] = c[y] => d[x] = d[y]
\* edges between subspaces
Lift(c, E) == {<<c[e[1]], c[e[2]]>> : e \in E}
Functional(c, E) == \A p, q \in Lift(c, E) : p[1] = q[1] => p[2] = q[2]
Converse(E) == {<<e[2], e[1]>> : e \in E}
\* the finest coarsening of c on which every operator of the set Es maps a subspace into at most one subspace
PassAll(c, Es) == FoldSet(LAMBDA E, acc : LinkAll(acc, UNION {{<<p[2], q[2]>> : q \in {r \in Lift(acc, E) : r[1] = p[1]}} : p \in Lift(acc, E)}), c, Es)
RECURSIVE Coarsen(_, _)
Coarsen(c, Es) == LET d == PassAll(c, Es) IN IF d = c THEN c ELSE Coarsen(d, Es)
Mappings(c, E) == {<<IndexOf(c, e[1]), IndexOf(c, e[2])>> : e \in E}
==============================================================================
