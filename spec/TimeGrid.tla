------------------------------- MODULE TimeGrid -------------------------------
(* Time points of a segment [0, beta]: positions 0..N on the grid, N = Base^Width - 1 being beta itself.
   r[i] is the position (digits of BigNat) held by the i-th variable of the program. *)
EXTENDS BigNat, TLC
CONSTANTS Width, Regs
VARIABLES r
N == Strip([i \in 1..Width |-> Base - 1])
OnGrid(x) == Leq(x, N)
\* position modulo the period: beta and 0 are the same point of the circle
Wrap(x) == IF Less(x, N) THEN x ELSE Minus(x, N)
AddPt(x, y) == LET s == Plus(x, y) IN IF Less(s, N) THEN s ELSE Wrap(Minus(s, N))
SubPt(x, y) == IF Less(x, y) THEN Minus(N, Minus(y, x)) ELSE Wrap(Minus(x, y))
NegPt(x) == Minus(N, x)
IsQuotient(q, x, y) == Leq(Times(q, y), x) /\ Less(x, Times(Plus(q, <<1>>), y))
Compare(x, y) == IF Less(x, y) THEN -1 ELSE IF Same(x, y) THEN 0 ELSE 1
\* x lies in the half-open interval [a, b[ (which goes through beta and 0 when b < a)
Between(x, a, b) == IF Less(a, b) THEN Leq(a, x) /\ Less(x, b) ELSE Leq(a, x) \/ Less(x, b)
Set(i, x) == r' = [r EXCEPT ![i] = Strip(x)] /\ OnGrid(x)
Put(i, n) == Set(i, n)
Add(i, j, k) == Set(i, AddPt(r[j], r[k]))
Sub(i, j, k) == Set(i, SubPt(r[j], r[k]))
Neg(i, j) == Set(i, NegPt(r[j]))
Mult(i, j, m) == OnGrid(Times(r[j], m)) /\ Set(i, Times(r[j], m))
Div(i, j, m, q) == IsQuotient(q, r[j], m) /\ Set(i, q)
Copy(i, j) == Set(i, r[j])
Random(i, a, b, x) == Between(x, a, b) /\ Set(i, x)
Setup == r = [i \in Regs |-> <<>>]
===============================================================================
