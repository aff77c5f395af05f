------------------------------ MODULE MCTimeGrid ------------------------------
(* Every program of grid operations on a small grid: the digit arithmetic is arithmetic modulo the period. *)
EXTENDS TimeGrid, FiniteSets
VARIABLE op
Nv == Base ^ Width - 1
Pts == 0..Nv
V(i) == ValueOf(r[i])
Init == Setup /\ op = [k |-> "init"]
Next == \/ \E i \in Regs, n \in Pts : Put(i, Digits(n)) /\ op' = [k |-> "put", i |-> i, n |-> n]
        \/ \E i, j, k \in Regs : Add(i, j, k) /\ op' = [k |-> "add", i |-> i, j |-> V(j), m |-> V(k)]
        \/ \E i, j, k \in Regs : Sub(i, j, k) /\ op' = [k |-> "sub", i |-> i, j |-> V(j), m |-> V(k)]
        \/ \E i, j \in Regs : Neg(i, j) /\ op' = [k |-> "neg", i |-> i, j |-> V(j)]
        \/ \E i, j \in Regs, m \in 1..3, q \in Pts : Div(i, j, Digits(m), Digits(q)) /\ op' = [k |-> "div", i |-> i, j |-> V(j), m |-> m]
        \/ \E i, j \in Regs, m \in 0..3 : Mult(i, j, Digits(m)) /\ op' = [k |-> "mult", i |-> i, j |-> V(j), m |-> m]
        \/ \E i, j, k \in Regs, x \in Pts : Random(i, r[j], r[k], Digits(x)) /\ op' = [k |-> "rnd", i |-> i, j |-> V(j), m |-> V(k), x |-> x]
Spec == Init /\ [][Next]_<<r, op>>
OnTheGrid == \A i \in Regs : V(i) \in Pts
Expected ==
  CASE op.k = "put" -> V(op.i) = op.n
    [] op.k = "add" -> V(op.i) = (op.j + op.m) % Nv
    [] op.k = "sub" -> V(op.i) = (op.j - op.m + Nv) % Nv
    [] op.k = "neg" -> V(op.i) = Nv - op.j
    [] op.k = "div" -> V(op.i) = op.j \div op.m
    [] op.k = "mult" -> V(op.i) = op.j * op.m
    [] op.k = "rnd" -> V(op.i) = op.x /\ (IF op.j < op.m THEN op.x \in op.j..(op.m - 1) ELSE op.x \notin op.m..(op.j - 1))
    [] OTHER -> TRUE
\* laws of the circle
Laws == \A i, j \in Regs :
  /\ AddPt(SubPt(r[i], r[j]), r[j]) = Wrap(r[i])
  /\ SubPt(AddPt(r[i], r[j]), r[j]) = Wrap(r[i])
  /\ AddPt(r[i], r[j]) = AddPt(r[j], r[i])
  /\ Wrap(AddPt(r[i], NegPt(r[i]))) = <<>>
  /\ SubPt(r[i], r[j]) = AddPt(r[i], NegPt(r[j]))
  /\ Compare(r[i], r[j]) = (IF V(i) < V(j) THEN -1 ELSE IF V(i) = V(j) THEN 0 ELSE 1)
Associative == \A i, j, k \in Regs : AddPt(AddPt(r[i], r[j]), r[k]) = AddPt(r[i], AddPt(r[j], r[k]))
===============================================================================
