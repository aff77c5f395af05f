------------------------------ MODULE SampleStats ------------------------------
(* Averages, error bars and jackknife estimates of samples (Gaussian integers <<re, im>>), as functions of the whole list of samples:
   the textbook definitions, whatever the distribution over ranks. *)
EXTENDS Accumulator
Re(s) == [i \in 1..Len(s) |-> s[i][1]]
Im(s) == [i \in 1..Len(s) |-> s[i][2]]
Mean(s) == R(SumI(Re(s)), Len(s)) \o R(SumI(Im(s)), Len(s))
StdErr2(s) == SqErr(Re(s), Im(s), 1)
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Tot(s) == <<SumI(Re(s)), SumI(Im(s))>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Rest(s, i) == Minus(Tot(s), s[i])
RECURSIVE Prod(_)
Lcm(a, b) == (a \div Gcd(AbsI(a), AbsI(b))) * b
RECURSIVE LcmAll(_)
LcmAll(S) == IF S = {} THEN 1 ELSE LET x == CHOOSE x \in S : TRUE IN Lcm(x, LcmAll(S \ {x}))
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
\* f on the leave-one-out averages, as numerators over the common denominator Den
Den(f, x, y) == LET n == Len(x) IN
  CASE f = "id" -> n - 1
    [] f \in {"sq", "mul"} -> (n - 1) * (n - 1)
    [] f = "div" -> LcmAll({AbsI(Rest(y, i)[1]) : i \in 1..n})
Num(f, x, y, i) ==
  CASE f = "id" -> Rest(x, i)
    [] f = "sq" -> Mul(Rest(x, i), Rest(x, i))
    [] f = "mul" -> Mul(Rest(x, i), Rest(y, i))
    [] f = "div" -> LET q == Den(f, x, y) \div Rest(y, i)[1] IN <<Rest(x, i)[1] * q, Rest(x, i)[2] * q>>
\* f on the averages of all samples
OnMean(f, x, y) == LET n == Len(x) X == Tot(x) Y == Tot(y) IN
  CASE f = "id" -> R(X[1], n) \o R(X[2], n)
    [] f = "sq" -> LET z == Mul(X, X) IN R(z[1], n * n) \o R(z[2], n * n)
    [] f = "mul" -> LET z == Mul(X, Y) IN R(z[1], n * n) \o R(z[2], n * n)
    [] f = "div" -> R(X[1], Y[1]) \o R(X[2], Y[1])
\* average of f over the leave-one-out averages, its squared error, and the estimate corrected for the bias
Jack(f, x, y) ==
  LET n == Len(x)
      D == Den(f, x, y)
      a == TLCEval([i \in 1..n |-> Num(f, x, y, i)])
      A == Tot(a)
      q == SumI([i \in 1..n |-> (n * a[i][1] - A[1]) * (n * a[i][1] - A[1]) + (n * a[i][2] - A[2]) * (n * a[i][2] - A[2])])
      m == R(A[1], n * D) \o R(A[2], n * D)
      F == OnMean(f, x, y)
      corr(k) == RAdd(RMulI(<<F[k], F[k + 1]>>, n), RMulI(<<m[k], m[k + 1]>>, -(n - 1)))
  IN [m |-> m, f |-> F, e |-> RDivI(RDivI(RDivI(RMulI(R(q, n), n - 1), D), D), n * n), a |-> corr(1) \o corr(3)]
===============================================================================
