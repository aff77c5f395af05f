------------------------------- MODULE Generic -------------------------------
(* Tuple tools, numbers real or complex at run time, numeric helpers: what each call must return. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Map(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* f(x, r) = 3r + x, f(x, y, r) = 3r + x - 2y : order matters
RECURSIVE Fold(_, _)
Fold(s, r) == IF s = <<>> THEN r ELSE Fold(Tail(s), 3 * r + Head(s))
RECURSIVE Fold2(_, _, _)
Fold2(s, t, r) == IF s = <<>> THEN r ELSE Fold2(Tail(s), Tail(t), 3 * r + Head(s) - 2 * Head(t))
RECURSIVE Horner(_)
Horner(s) == IF s = <<>> THEN 0 ELSE 10 * Horner(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)]
Pick(s, I) == [k \in 1..Len(I) |-> s[I[k] + 1]]
Complement(n, I) == LET keep == {i \in 0..n-1 : \A k \in 1..Len(I) : I[k] # i}
                        RECURSIVE Sorted(_)
                        Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
                    IN Sorted(keep)
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN ToString(s[1]) ELSE ToString(s[1]) \o sep \o Join(Tail(s), sep)
RECURSIVE JoinS(_)
JoinS(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o JoinS(Tail(s))
(* ---- numbers which are real until something complex enters: [re, im, real]; components are even multiples, exact *)
Add(a, b) == [re |-> a.re + b.re, im |-> a.im + b.im, real |-> a.real /\ b.real]
Sub(a, b) == [re |-> a.re - b.re, im |-> a.im - b.im, real |-> a.real /\ b.real]
Mul(a, b) == [re |-> a.re * b.re - a.im * b.im, im |-> a.re * b.im + a.im * b.re, real |-> a.real /\ b.real]
\* exact quotients only: q is a quotient when q * b = a
IsDiv(a, b, q) == LET m == Mul(q, b) IN m.re = a.re /\ m.im = a.im /\ q.real = (a.real /\ b.real)
Bin(o, a, b, r) == CASE o = "+" -> r = Add(a, b) [] o = "-" -> r = Sub(a, b) [] o = "*" -> r = Mul(a, b) [] o = "/" -> IsDiv(a, b, r)
Text(a) == IF a.real THEN ToString(a.re) ELSE "(" \o ToString(a.re) \o (IF a.im >= 0 THEN "+" ELSE "") \o ToString(a.im) \o "j)"
Abs(x) == IF x < 0 THEN -x ELSE x
(* ---- Legendre polynomials at x = a/2, scaled by 4^n *)
RECURSIVE LegQ(_, _)
LegQ(n, a) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 2 * a ELSE ((2 * n - 1) * 2 * a * LegQ(n - 1, a) - (n - 1) * 16 * LegQ(n - 2, a)) \div n
(* t_l^p: zero if l+p even or p > l+1, else (-1)^p 2 sqrt(2l+1) (l+p-1)! / ((p-1)! (l-p+1)!); f is t / (2 sqrt(2l+1)) *)
RECURSIVE Prod(_, _)
Prod(a, b) == IF a > b THEN 1 ELSE Prod(a, b - 1) * b
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
\* (l+p-1)! / ((p-1)! (l-p+1)!) = C(l+p-1, 2p-2) (2p-2)!/(p-1)!
Tlp(l, p) == IF (l + p) % 2 = 0 \/ p > l + 1 THEN 0 ELSE (IF p % 2 = 0 THEN 1 ELSE -1) * Binom(l + p - 1, 2 * p - 2) * Prod(p, 2 * p - 2)
Q4(n) == IF n = 0 THEN 1 ELSE 4
==============================================================================
