-------------------------------- MODULE BigNat --------------------------------
(* Natural numbers as little-endian digit sequences in base Base (TLC's own integers have 32 bits). *)
EXTENDS Integers, Sequences
CONSTANT Base
Dg(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
Larger(a, b) == IF a > b THEN a ELSE b
RECURSIVE Strip(_)
Strip(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN Strip(SubSeq(x, 1, Len(x) - 1)) ELSE x
RECURSIVE CarryFrom(_, _, _)
CarryFrom(x, i, c) == IF i > Len(x) THEN (IF c = 0 THEN <<>> ELSE <<c % Base>> \o CarryFrom(x, i, c \div Base))
                      ELSE <<(x[i] + c) % Base>> \o CarryFrom(x, i + 1, (x[i] + c) \div Base)
Settle(x) == Strip(CarryFrom(x, 1, 0))
Plus(x, y) == Settle([i \in 1..Larger(Len(x), Len(y)) |-> Dg(x, i) + Dg(y, i)])
RECURSIVE SumTo(_, _, _, _)
SumTo(x, y, k, i) == IF i > k THEN 0 ELSE Dg(x, i) * Dg(y, k + 1 - i) + SumTo(x, y, k, i + 1)
Times(x, y) == Settle([k \in 1..(Len(x) + Len(y)) |-> SumTo(x, y, k, 1)])
RECURSIVE LessAt(_, _, _)
LessAt(x, y, i) == IF i = 0 THEN FALSE ELSE IF Dg(x, i) # Dg(y, i) THEN Dg(x, i) < Dg(y, i) ELSE LessAt(x, y, i - 1)
Less(x, y) == LessAt(x, y, Larger(Len(x), Len(y)))
Same(x, y) == Strip(x) = Strip(y)
Leq(x, y) == ~ Less(y, x)
RECURSIVE Borrow(_, _, _, _)
Borrow(x, y, i, b) == IF i > Len(x) THEN <<>>
                      ELSE LET d == x[i] - Dg(y, i) - b IN <<(d + Base) % Base>> \o Borrow(x, y, i + 1, IF d < 0 THEN 1 ELSE 0)
Minus(x, y) == Strip(Borrow(x, Strip(y), 1, 0)) \* x >= y
Absdiff(x, y) == IF Less(x, y) THEN Minus(y, x) ELSE Minus(x, y)
RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Digits(n \div Base)
RECURSIVE ValueOf(_)
ValueOf(x) == IF x = <<>> THEN 0 ELSE x[1] + Base * ValueOf(Tail(x))
===============================================================================
