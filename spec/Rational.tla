------------------------------- MODULE Rational -------------------------------
(* Rational numbers <<p, q>> in lowest terms, q > 0. *)
EXTENDS Integers, Sequences
AbsI(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
R(p, q) == LET g == Gcd(AbsI(p), AbsI(q)) h == IF q < 0 THEN -g ELSE g IN IF q = 0 THEN <<0, 0>> ELSE <<p \div h, q \div h>>
RAdd(x, y) == LET g == Gcd(x[2], y[2]) IN R(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), x[2] * (y[2] \div g))
RMulI(x, k) == LET g == Gcd(AbsI(k), x[2]) IN R(x[1] * (k \div g), x[2] \div g)
RDivI(x, k) == LET g == Gcd(AbsI(x[1]), AbsI(k)) IN IF x[1] = 0 THEN <<0, 1>> ELSE R(x[1] \div g, x[2] * (k \div g))
RMul(x, y) == LET g == Gcd(AbsI(x[1]), y[2]) h == Gcd(AbsI(y[1]), x[2]) IN R((x[1] \div g) * (y[1] \div h), (x[2] \div h) * (y[2] \div g))
RNeg(x) == <<-x[1], x[2]>>
RSub(x, y) == RAdd(x, RNeg(y))
RZero == <<0, 1>>
RLess(x, y) == x[1] * y[2] < y[1] * x[2]
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumI(f) == SumTo(f, Len(f))
===============================================================================
