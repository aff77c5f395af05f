----------------------------- MODULE MCHistogram -----------------------------
EXTENDS Histogram, Json
CONSTANTS Ids, MaxIn
VARIABLES opj, tot
mvars == <<h, opj, tot>>
Do(o) == opj' = ToJson(o)
Vals == {<<p, 2>> : p \in {-1, 0, 1, 3, 4, 5, 9}} \cup {<<1, 3>>, <<5, 1>>}
Limits == {<<<<0, 1>>, <<2, 1>>>>, <<<<1, 2>>, <<5, 1>>>>}
Init == h = (1 :> Empty(<<0, 1>>, <<2, 1>>, 3)) /\ opj = "{}" /\ tot = (1 :> 0)
Tot(id, n) == tot' = [k \in DOMAIN tot \cup {id} |-> IF k = id THEN n ELSE tot[k]]
Next ==
  \/ \E i \in Ids, l \in Limits, n \in {2, 3, 4} : New(i, l[1], l[2], n) /\ Tot(i, 0) /\ Do([op |-> "new", id |-> i, a |-> l[1], b |-> l[2], n |-> n])
  \/ \E i \in DOMAIN h, x \in Vals : tot[i] < MaxIn /\ Add(i, TRUE, x) /\ Tot(i, tot[i] + 1) /\ Do([op |-> "add", id |-> i, x |-> x])
  \/ \E i \in DOMAIN h, x \in {"nan", "inf", "-inf"} : tot[i] < MaxIn /\ Add(i, FALSE, <<0, 1>>) /\ Tot(i, tot[i] + 1) /\ Do([op |-> "add", id |-> i, x |-> x])
  \/ \E i \in Ids, j, k \in DOMAIN h : tot[j] + tot[k] <= MaxIn /\ Sum(i, j, k) /\ Tot(i, tot[j] + tot[k]) /\ Do([op |-> "sum", id |-> i, j |-> j, k |-> k])
  \/ \E i \in DOMAIN h : Clear(i) /\ Tot(i, 0) /\ Do([op |-> "clear", id |-> i])
  \/ \E i \in Ids, j \in DOMAIN h : Copy(i, j) /\ Tot(i, tot[j]) /\ \E w \in {"copy", "h5"} : Do([op |-> w, id |-> i, j |-> j])
Spec == Init /\ [][Next]_mvars
View == <<h, tot>>
Counted == \A i \in DOMAIN h : LET o == h[i] IN
  /\ o.in + o.out = tot[i]
  /\ Cum(o.data, o.n) = <<o.in, 1>>
  /\ o.in > 0 => Cum(Norm(o).data, o.n) = <<1, 1>> /\ Norm(Cumulated(o)).data[o.n] = <<1, 1>>
\* a value falls in the bin of a nearest mesh point
Nearest == \A i \in DOMAIN h, x \in Vals : LET o == h[i] IN Inside(o, x) => LET k == Index(o, x) IN
  /\ k \in 0..(o.n - 1)
  /\ \A m \in 0..(o.n - 1) : LET d(q) == LET z == RAdd(x, <<-MeshPoint(o, q)[1], MeshPoint(o, q)[2]>>) IN <<AbsI(z[1]), z[2]>> IN ~ RLess(d(m), d(k))
===============================================================================
