------------------------------ MODULE MCDetManip ------------------------------
(* Every history of transactions on a small table: transactions are atomic, determinants obey their definition, and trials can be undone. *)
EXTENDS DetManip, Json
CONSTANTS MaxN, MaxK, Labels
VARIABLE opj
Table == <<<<<<1, 0>>, <<2, 0>>, <<0, 1>>>>, <<<<-1, 0>>, <<1, 0>>, <<0, 0>>>>, <<<<0, 0>>, <<1, 1>>, <<2, 0>>>>>>
Q(op) == opj' = ToJson(op)
n == Len(d[1].xs)
Lists(S, k) == UNION {[1..m -> S] : m \in 1..k}
Few(k) == {<<>>} \cup Lists(Labels, k)
Trials == {[k |-> "insert", i |-> i, j |-> j, x |-> x, y |-> y] : i \in Lists(0..n, 1), j \in Lists(0..n, 1), x \in Lists(Labels, 1), y \in Lists(Labels, 1)}
  \cup (IF MaxK < 2 THEN {} ELSE {[k |-> "insert", i |-> i, j |-> j, x |-> <<1, x>>, y |-> <<y, 2>>] : i \in [1..2 -> 0..(n + 1)], j \in [1..2 -> 0..(n + 1)], x \in Labels, y \in Labels})
  \cup {[k |-> "remove", i |-> i, j |-> j] : i \in Lists(0..n, 1), j \in Lists(0..n, 1)}
  \cup (IF MaxK < 2 THEN {} ELSE {[k |-> "remove", i |-> i, j |-> j] : i \in [1..2 -> 0..(n - 1)], j \in [1..2 -> 0..(n - 1)]})
  \cup {[k |-> "col", j |-> j, y |-> y] : j \in Lists(0..n, 1), y \in Lists(Labels, 1)}
  \cup {[k |-> "row", i |-> i, x |-> x] : i \in Lists(0..n, 1), x \in Lists(Labels, 1)}
  \cup {[k |-> "rowcol", i |-> i, j |-> j, x |-> x, y |-> y] : i \in Lists(0..n, 1), j \in Lists(0..n, 1), x \in Lists(Labels, 1), y \in Lists(Labels, 1)}
  \cup {[k |-> "refill", x |-> x, y |-> y] : x \in Few(2), y \in Few(2)}
Fits(t) == IF Valid(d[1], t) THEN Len(TargetX(d[1], t)) <= MaxN ELSE TRUE
Init == d = [i \in {1} |-> Fresh(<<>>, <<>>)] /\ F = Table /\ opj = "{}"
Next == \/ \E t \in Trials : Fits(t) /\ (Try(1, t) \/ Refused(1, t)) /\ Q([op |-> "try", id |-> 1, t |-> t])
        \/ Complete(1) /\ Q([op |-> "complete", id |-> 1])
        \/ Reject(1) /\ Q([op |-> "reject", id |-> 1])
        \/ ~ Pending(d[1]) /\ \E i, j \in 0..(n - 1) : SwapRow(1, i, j) /\ Q([op |-> "swap_row", id |-> 1, i |-> i, j |-> j])
        \/ ~ Pending(d[1]) /\ \E i, j \in 0..(n - 1) : SwapCol(1, i, j) /\ Q([op |-> "swap_col", id |-> 1, i |-> i, j |-> j])
        \/ ~ Pending(d[1]) /\ \E w \in {"none", "up", "down", "left", "right"} : Roll(1, w) /\ Q([op |-> "roll", id |-> 1, way |-> w])
        \/ Clear(1) /\ Q([op |-> "clear", id |-> 1])
Spec == Init /\ [][Next]_<<vars, opj>>
\* Leibniz formula
Perms(m) == {p \in [1..m -> 1..m] : \A a, b \in 1..m : a # b => p[a] # p[b]}
Sign(p) == IF Cardinality({q \in (DOMAIN p) \X (DOMAIN p) : q[1] < q[2] /\ p[q[1]] > p[q[2]]}) % 2 = 0 THEN One ELSE Neg(One)
RECURSIVE ProdTo(_, _, _)
ProdTo(M, p, k) == IF k = 0 THEN One ELSE Cx(M[k][p[k]], ProdTo(M, p, k - 1))
Leibniz(M) == LET T == {<<p, Cx(Sign(p), ProdTo(M, p, Len(M)))>> : p \in Perms(Len(M))}
                  RECURSIVE S(_)
                  S(R) == IF R = {} THEN Zero ELSE LET x == CHOOSE x \in R : TRUE IN <<x[2][1] + S(R \ {x})[1], x[2][2] + S(R \ {x})[2]>>
              IN S(T)
o == d[1]
DetIsLeibniz == Det(o) = Leibniz(Mat(o.xs, o.ys))
NeverSingular == Det(o) # Zero /\ Len(o.xs) = Len(o.ys)
SwapFlips == \A i, j \in 1..n : i < j => DetOf(Exchange(o.xs, i - 1, j - 1), o.ys) = Neg(Det(o)) /\ DetOf(o.xs, Exchange(o.ys, i - 1, j - 1)) = Neg(Det(o))
RollFlips == \A w \in {"up", "down"} : DetOf(IF w = "up" THEN Last_(o.xs) ELSE First(o.xs), o.ys) = (IF RollSign(n, w) = 1 THEN Det(o) ELSE Neg(Det(o)))
Minor(i, j) == DetOf(Keep(o.xs, <<i - 1>>), Keep(o.ys, <<j - 1>>))
\* expansion along a column, and the entries of the inverse as ratios of cofactors
Cofactor(i, j) == IF (i + j) % 2 = 0 THEN Minor(i, j) ELSE Neg(Minor(i, j))
RECURSIVE Expand(_, _, _)
Expand(i, j, k) == IF k = 0 THEN Zero ELSE LET e == Expand(i, j, k - 1) c == Cx(F[o.xs[i]][o.ys[k]], Cofactor(j, k)) IN <<e[1] + c[1], e[2] + c[2]>>
InverseIsCofactors == \A i, j \in 1..n : Expand(i, j, n) = (IF i = j THEN Det(o) ELSE Zero)
\* a trial can be undone by the opposite one
Undo == Pending(o) => LET a == Applied(o, o.t) IN
  /\ o.t.k = "insert" => Applied(a, [k |-> "remove", i |-> o.t.i, j |-> o.t.j]) = [o EXCEPT !.t = NoTry]
  /\ (o.t.k = "remove" /\ Len(o.t.i) = 1) => Applied(a, [k |-> "insert", i |-> o.t.i, j |-> o.t.j, x |-> <<o.xs[o.t.i[1] + 1]>>, y |-> <<o.ys[o.t.j[1] + 1]>>]) = [o EXCEPT !.t = NoTry]
===============================================================================
