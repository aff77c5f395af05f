------------------------------ MODULE Matsubara ------------------------------
(* Matsubara frequencies [n |-> index, s |-> "F" or "B", b |-> inverse temperature (rational)] in slots fr[id].
   Values are imaginary, integers in units of pi / beta; complex numbers are pairs of rationals in these units. *)
EXTENDS Rational, TLC
VARIABLE fr
One(s) == IF s = "F" THEN 1 ELSE 0
Value(f) == 2 * f.n + One(f.s)
\* the frequency with that value at the temperature of f
Stat(v) == IF v % 2 = 1 THEN "F" ELSE "B"
Freq(v, b) == [n |-> (v - (v % 2)) \div 2, s |-> Stat(v), b |-> b]
Sum(f, g) == Freq(Value(f) + Value(g), f.b)
Diff(f, g) == Freq(Value(f) - Value(g), f.b)
Minus(f) == Freq(-Value(f), f.b)
\* complex numbers
CI(v) == <<RZero, <<v, 1>>>>
CAdd(z, w) == <<RAdd(z[1], w[1]), RAdd(z[2], w[2])>>
CNeg(z) == <<RNeg(z[1]), RNeg(z[2])>>
CMul(z, w) == <<RAdd(RMul(z[1], w[1]), RNeg(RMul(z[2], w[2]))), RAdd(RMul(z[1], w[2]), RMul(z[2], w[1]))>>
Norm2(w) == RAdd(RMul(w[1], w[1]), RMul(w[2], w[2]))
CDiv(z, w) == LET d == Norm2(w) p == CMul(z, <<w[1], RNeg(w[2])>>) IN <<R(p[1][1] * d[2], p[1][2] * d[1]), R(p[2][1] * d[2], p[2][2] * d[1])>>
CZero(w) == w[1][1] = 0 /\ w[2][1] = 0
Apply(o, z, w) == CASE o = "+" -> CAdd(z, w) [] o = "-" -> CAdd(z, CNeg(w)) [] o = "*" -> CMul(z, w) [] o = "/" -> CDiv(z, w)

Set(id, f) == fr' = (id :> f) @@ fr
New(id, n, s, b) == Set(id, [n |-> n, s |-> s, b |-> b])
\* sums and differences exist at one temperature only
SameBeta(j, k) == fr[j].b = fr[k].b
Add(id, j, k) == SameBeta(j, k) /\ Set(id, Sum(fr[j], fr[k]))
Sub(id, j, k) == SameBeta(j, k) /\ Set(id, Diff(fr[j], fr[k]))
Neg(id, j) == Set(id, Minus(fr[j]))
\* point of a mesh with N frequencies n >= 0: indices -N..N-1 (fermions), 1-N..N-1 (bosons), or 0..N-1 for positive frequencies only
First(s, N, pos) == IF pos THEN 0 ELSE IF s = "F" THEN -N ELSE 1 - N
InMesh(f, N, pos) == f.n >= First(f.s, N, pos) /\ f.n <= N - 1
Position(f, N, pos) == f.n - First(f.s, N, pos)
===============================================================================
