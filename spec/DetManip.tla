------------------------------- MODULE DetManip -------------------------------
(* A tracked matrix F(x_i, y_j) with its determinant and inverse, changed by transactions (try, then complete or reject).
   d[id] = [xs, ys, t, th, nb, pw]: current arguments in their current order, the pending trial (k = "none" when there is none),
   the singularity threshold (in halves, -1: default), the number of operations before a check, and the warning precision.
   Entries are Gaussian integers <<re, im>>; determinants are computed exactly by fraction-free elimination. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLES d, F
vars == <<d, F>>
Zero == <<0, 0>>
One == <<1, 0>>
Cx(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Cm(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Neg(a) == <<-a[1], -a[2]>>
Conj(a) == <<a[1], -a[2]>>
Norm2(a) == a[1] * a[1] + a[2] * a[2]
Quot(a, b) == IF b[2] = 0 THEN <<a[1] \div b[1], a[2] \div b[1]>> ELSE LET c == Cx(a, Conj(b)) IN <<c[1] \div Norm2(b), c[2] \div Norm2(b)>>
Mat(xs, ys) == TLCEval([i \in 1..Len(xs) |-> [j \in 1..Len(ys) |-> F[xs[i]][ys[j]]]])
RECURSIVE Elim(_, _)
Elim(M, prev) ==
  LET n == Len(M) IN
  IF n = 0 THEN One ELSE
  IF n = 1 THEN M[1][1] ELSE
  LET P == {i \in 1..n : M[i][1] # Zero} IN
  IF P = {} THEN Zero ELSE
  LET p == CHOOSE i \in P : \A k \in P : i <= k
      W == TLCEval([i \in 1..n |-> IF i = p THEN M[1] ELSE IF i = 1 THEN M[p] ELSE M[i]])
      S == TLCEval([i \in 1..(n - 1) |-> [j \in 1..(n - 1) |-> Quot(Cm(Cx(W[1][1], W[i + 1][j + 1]), Cx(W[i + 1][1], W[1][j + 1])), prev)]])
      D == Elim(S, W[1][1])
  IN IF p = 1 THEN D ELSE Neg(D)
DetOf(xs, ys) == Elim(Mat(xs, ys), One)

\* positions are counted from 0
Ascending(a) == \A i \in 1..(Len(a) - 1) : a[i] < a[i + 1]
SortedIdx(p) == CHOOSE s \in [1..Len(p) -> 1..Len(p)] : Ascending([i \in 1..Len(p) |-> p[s[i]]])
Put(s, p, v) == SubSeq(s, 1, p) \o <<v>> \o SubSeq(s, p + 1, Len(s))
RECURSIVE PutAll(_, _, _, _)
PutAll(s, p, v, k) == IF k > Len(p) THEN s ELSE PutAll(Put(s, p[k], v[k]), p, v, k + 1)
Insert(s, p, v) == LET o == SortedIdx(p) IN PutAll(s, [i \in 1..Len(p) |-> p[o[i]]], [i \in 1..Len(p) |-> v[o[i]]], 1)
Keep(s, p) == LET K == {i \in 1..Len(s) : ~ \E k \in 1..Len(p) : p[k] = i - 1}
                  At(n) == CHOOSE i \in K : Cardinality({j \in K : j <= i}) = n
              IN [n \in 1..Cardinality(K) |-> s[At(n)]]
Distinct(p) == \A a, b \in 1..Len(p) : a # b => p[a] # p[b]
InRange(p, n) == \A a \in 1..Len(p) : p[a] >= 0 /\ p[a] < n
Valid(o, t) == LET n == Len(o.xs) IN
  CASE t.k = "insert" -> Len(t.i) = Len(t.j) /\ Len(t.j) = Len(t.x) /\ Len(t.x) = Len(t.y)
                         /\ Distinct(t.i) /\ Distinct(t.j) /\ InRange(t.i, n + Len(t.i)) /\ InRange(t.j, n + Len(t.j))
    [] t.k = "remove" -> Len(t.i) = Len(t.j) /\ Distinct(t.i) /\ Distinct(t.j) /\ InRange(t.i, n) /\ InRange(t.j, n)
    [] t.k = "col" -> InRange(t.j, n)
    [] t.k = "row" -> InRange(t.i, n)
    [] t.k = "rowcol" -> InRange(t.i, n) /\ InRange(t.j, n)
    [] t.k = "refill" -> Len(t.x) = Len(t.y)
    [] OTHER -> FALSE
TargetX(o, t) ==
  CASE t.k = "insert" -> Insert(o.xs, t.i, t.x)
    [] t.k = "remove" -> Keep(o.xs, t.i)
    [] t.k \in {"row", "rowcol"} -> [o.xs EXCEPT ![t.i[1] + 1] = t.x[1]]
    [] t.k = "refill" -> t.x
    [] OTHER -> o.xs
TargetY(o, t) ==
  CASE t.k = "insert" -> Insert(o.ys, t.j, t.y)
    [] t.k = "remove" -> Keep(o.ys, t.j)
    [] t.k \in {"col", "rowcol"} -> [o.ys EXCEPT ![t.j[1] + 1] = t.y[1]]
    [] t.k = "refill" -> t.y
    [] OTHER -> o.ys
NoTry == [k |-> "none"]
Det(o) == DetOf(o.xs, o.ys)
TrialDet(o, t) == DetOf(TargetX(o, t), TargetY(o, t))
Applied(o, t) == [o EXCEPT !.xs = TargetX(o, t), !.ys = TargetY(o, t), !.t = NoTry]
Fresh(xs, ys) == [xs |-> xs, ys |-> ys, t |-> NoTry, th |-> -1, nb |-> 100, pw |-> 0]
Upd(id, o) == d' = [d EXCEPT ![id] = o] /\ UNCHANGED F
Pending(o) == o.t.k # "none"

Try(id, t) == ~ Pending(d[id]) /\ Valid(d[id], t) /\ Upd(id, [d[id] EXCEPT !.t = t])
Refused(id, t) == (Pending(d[id]) \/ ~ Valid(d[id], t)) /\ UNCHANGED vars
Complete(id) == LET o == d[id] IN
  IF Pending(o) THEN TrialDet(o, o.t) # Zero /\ Upd(id, Applied(o, o.t)) ELSE UNCHANGED vars
Reject(id) == Upd(id, [d[id] EXCEPT !.t = NoTry])
Do(id, t) == ~ Pending(d[id]) /\ Valid(d[id], t) /\ TrialDet(d[id], t) # Zero /\ Upd(id, Applied(d[id], t))
Exchange(s, i, j) == [s EXCEPT ![i + 1] = s[j + 1], ![j + 1] = s[i + 1]]
SwapRow(id, i, j) == Upd(id, [d[id] EXCEPT !.xs = Exchange(@, i, j)])
SwapCol(id, i, j) == Upd(id, [d[id] EXCEPT !.ys = Exchange(@, i, j)])
First(s) == IF s = <<>> THEN s ELSE <<s[Len(s)]>> \o SubSeq(s, 1, Len(s) - 1) \* the last one becomes the first
Last_(s) == IF s = <<>> THEN s ELSE Tail(s) \o <<s[1]>>                       \* the first one becomes the last
Roll(id, way) == Upd(id, CASE way = "down" -> [d[id] EXCEPT !.xs = First(@)] [] way = "up" -> [d[id] EXCEPT !.xs = Last_(@)]
                           [] way = "right" -> [d[id] EXCEPT !.ys = First(@)] [] way = "left" -> [d[id] EXCEPT !.ys = Last_(@)] [] OTHER -> d[id])
RollSign(n, way) == IF way # "none" /\ n > 0 /\ n % 2 = 0 THEN -1 ELSE 1
Clear(id) == Upd(id, [d[id] EXCEPT !.xs = <<>>, !.ys = <<>>, !.t = NoTry])
Singular(o) == o.th >= 0 /\ 4 * Norm2(Det(o)) < o.th * o.th
\* the determinant is given unless the matrix is singular in the sense of the threshold
Given(id) == Len(d[id].xs) = 0 \/ ~ Singular(d[id])
Threshold(id, th) == Upd(id, [d[id] EXCEPT !.th = th])
Before(id, n) == Upd(id, [d[id] EXCEPT !.nb = n])
Precision(id, n) == Upd(id, [d[id] EXCEPT !.pw = n])
New(id, xs, ys) == d' = [i \in DOMAIN d \cup {id} |-> IF i = id THEN Fresh(xs, ys) ELSE d[i]] /\ UNCHANGED F
Copy(i, j) == d' = [k \in DOMAIN d \cup {i} |-> IF k = i THEN d[j] ELSE d[k]] /\ UNCHANGED F
Move(i, j) == i # j /\ d' = [k \in (DOMAIN d \cup {i}) \ {j} |-> IF k = i THEN d[j] ELSE d[k]] /\ UNCHANGED F
SwapObj(i, j) == d' = [d EXCEPT ![i] = d[j], ![j] = d[i]] /\ UNCHANGED F
\* an object read back from a file is the stored one, without its pending trial
Load(i, j, pw) == LET o == [d[j] EXCEPT !.t = NoTry, !.pw = pw] IN d' = [k \in DOMAIN d \cup {i} |-> IF k = i THEN o ELSE d[k]] /\ UNCHANGED F
===============================================================================
