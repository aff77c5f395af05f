----------------------------- MODULE MCPartition -----------------------------
(* Every pair of relations on a few basis states: the coarsening is the least one, and it is found whatever the order. *)
EXTENDS Partition
CONSTANTS Dim, MaxH, MaxE
VARIABLES H, E
S == 0..(Dim - 1)
Init == H = {} /\ E = {}
Next == \/ Cardinality(H) < MaxH /\ \E i, f \in S : i < f /\ H' = H \cup {<<i, f>>} /\ E' = E
        \/ Cardinality(E) < MaxE /\ \E i, f \in S : E' = E \cup {<<i, f>>} /\ H' = H
Spec == Init /\ [][Next]_<<H, E>>
P0 == LinkAll(Singletons(Dim), H)
P1 == Coarsen(P0, {E, Converse(E)})
Valid(c) == \A x \in S : c[x] <= x /\ c[c[x]] = c[x]
AllParts == {c \in [S -> S] : Valid(c)}
Connected == \A x, y \in S : (P0[x] = P0[y]) <=> (\A c \in AllParts : (\A e \in H : c[e[1]] = c[e[2]]) => c[x] = c[y])
Least == /\ Valid(P1) /\ Finer(P0, P1) /\ Functional(P1, E) /\ Functional(P1, Converse(E))
         /\ \A c \in AllParts : (Finer(P0, c) /\ Functional(c, E) /\ Functional(c, Converse(E))) => Finer(P1, c)
Numbered == \A x \in S : IndexOf(P1, x) < Cardinality(Blocks(P1)) /\ \A y \in S : (IndexOf(P1, x) = IndexOf(P1, y)) <=> P1[x] = P1[y]
==============================================================================
