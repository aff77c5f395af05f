--------------------------- MODULE FundamentalOps ---------------------------
(* Ordered sets of operator names: each register holds the sequence of distinct names in the order of first insertion. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANT Regs
VARIABLE f
In(x, s) == \E i \in 1..Len(s) : s[i] = x
Ins(s, x) == IF In(x, s) THEN s ELSE Append(s, x)
RECURSIVE InsAll(_, _)
InsAll(s, t) == IF t = <<>> THEN s ELSE InsAll(Ins(s, Head(t)), Tail(t))
Position(x, s) == IF In(x, s) THEN (CHOOSE i \in 1..Len(s) : s[i] = x) - 1 ELSE -1
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
Init == f = [d \in Regs |-> <<>>]
Assign(d, v) == f' = [f EXCEPT ![d] = v]
Insert(d, x) == Assign(d, Ins(f[d], x))
Merge(d, a) == Assign(d, InsAll(f[d], f[a]))
Copy(d, a) == Assign(d, f[a])
FromList(d, v) == Assign(d, v)
AllDistinct == \A d \in Regs : Distinct(f[d])
PosInverse == \A d \in Regs : \A i \in 1..Len(f[d]) : Position(f[d][i], f[d]) = i - 1
=============================================================================
