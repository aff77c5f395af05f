------------------------------ MODULE GaussRat --------------------------------
(* Complex numbers with rational parts, of a bounded size: numbers which leave the range become Bad. *)
EXTENDS Rational, TLC

(* ------------------------------ numbers -------------------------------- *)
CI(re, im) == <<<<re, 1>>, <<im, 1>>>>
CZero == CI(0, 0)
COne == CI(1, 0)
(* numbers of which a part leaves the range of TLC become Bad, which stays; no behaviour with a Bad number is generated *)
Bad == <<<<0, 0>>, <<0, 0>>>>
IsBad(x) == x[1][2] = 0
Cap(x) == IF AbsI(x[1][1]) > 150 \/ x[1][2] > 150 \/ AbsI(x[2][1]) > 150 \/ x[2][2] > 150 THEN Bad ELSE x
CAdd(x, y) == IF IsBad(x) \/ IsBad(y) THEN Bad ELSE Cap(<<RAdd(x[1], y[1]), RAdd(x[2], y[2])>>)
CNeg(x) == <<RNeg(x[1]), RNeg(x[2])>>
CSub(x, y) == CAdd(x, CNeg(y))
CMul(x, y) == IF IsBad(x) \/ IsBad(y) THEN Bad ELSE Cap(<<RSub(RMul(x[1], y[1]), RMul(x[2], y[2])), RAdd(RMul(x[1], y[2]), RMul(x[2], y[1]))>>)
CConj(x) == <<x[1], RNeg(x[2])>>
CNorm(x) == RAdd(RMul(x[1], x[1]), RMul(x[2], x[2]))
RInv(x) == IF x[1] < 0 THEN <<-x[2], -x[1]>> ELSE <<x[2], x[1]>>
CInv(x) == IF IsBad(x) THEN Bad ELSE LET n == RInv(CNorm(x)) IN Cap(<<RMul(x[1], n), RMul(RNeg(x[2]), n)>>)
CIsReal(x) == x[2][1] = 0
CIsZero(x) == x[1][1] = 0 /\ x[2][1] = 0
Small(x, b) == ~IsBad(x) /\ \A i \in 1..2 : AbsI(x[i][1]) <= b /\ x[i][2] <= b
===============================================================================
