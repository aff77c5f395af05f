------------------------------- MODULE Histogram -------------------------------
(* Histograms h[id] = [a, b, n, data, in, out]: limits (rationals), number of bins, contents (rationals), numbers of values inside and outside.
   tot and val are history variables: the number of values ever added, to state that none is lost. *)
EXTENDS Rational, SequencesExt, FiniteSets, TLC
VARIABLE h
Empty(a, b, n) == [a |-> a, b |-> b, n |-> n, data |-> [k \in 1..n |-> RZero], in |-> 0, out |-> 0]
Set(id, o) == h' = [k \in DOMAIN h \cup {id} |-> IF k = id THEN o ELSE h[k]]
Width(o) == RAdd(o.b, <<-o.a[1], o.a[2]>>)
Inside(o, x) == ~ RLess(x, o.a) /\ ~ RLess(o.b, x)
\* bin k (from 0) covers [k - 1/2, k + 1/2[ in units of the distance of two mesh points
Index(o, x) == LET d == RAdd(x, <<-o.a[1], o.a[2]>>) wd == Width(o) IN (2 * d[1] * wd[2] * (o.n - 1) + d[2] * wd[1]) \div (2 * d[2] * wd[1])
MeshPoint(o, k) == IF o.n = 1 THEN o.a ELSE RAdd(o.a, RDivI(RMulI(Width(o), k), o.n - 1))
Valid(a, b) == RLess(a, b)
New(id, a, b, n) == Valid(a, b) /\ Set(id, Empty(a, b, n))
Added(o, fin, x) == IF fin /\ Inside(o, x) THEN [o EXCEPT !.data[Index(o, x) + 1] = RAdd(@, <<1, 1>>), !.in = @ + 1] ELSE [o EXCEPT !.out = @ + 1]
Add(id, fin, x) == Set(id, Added(h[id], fin, x))
Alike(o, p) == o.a = p.a /\ o.b = p.b /\ o.n = p.n
Plus(o, p) == [o EXCEPT !.data = [k \in 1..o.n |-> RAdd(o.data[k], p.data[k])], !.in = @ + p.in, !.out = @ + p.out]
Sum(id, j, k) == Alike(h[j], h[k]) /\ Set(id, Plus(h[j], h[k]))
Norm(o) == [o EXCEPT !.data = [k \in 1..o.n |-> RDivI(o.data[k], o.in)]]
RECURSIVE Cum(_, _)
Cum(d, k) == IF k = 0 THEN RZero ELSE RAdd(Cum(d, k - 1), d[k])
Cumulated(o) == [o EXCEPT !.data = [k \in 1..o.n |-> Cum(o.data, k)]]
Pdf(id, j) == h[j].in > 0 /\ Set(id, Norm(h[j]))
Cdf(id, j) == h[j].in > 0 /\ Set(id, Norm(Cumulated(h[j])))
Clear(id) == Set(id, Empty(h[id].a, h[id].b, h[id].n))
Copy(id, j) == Set(id, h[j])
RECURSIVE PlusAll(_)
PlusAll(s) == IF Len(s) = 1 THEN s[1] ELSE Plus(PlusAll(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
===============================================================================
