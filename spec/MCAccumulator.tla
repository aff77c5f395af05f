---------------------------- MODULE MCAccumulator ----------------------------
EXTENDS Accumulator, Json
CONSTANTS Caps, Factors, Ids, MaxLen
NMax == -1..5
VARIABLES opj
mvars == <<acc, opj>>
Do(o) == opj' = ToJson(o)
X(n) == <<<<n, 0>>>>
Init == acc = (1 :> [s |-> <<>>, lmax |-> -1, nmax |-> 2, cap |-> 1, blk |-> <<0>>]) /\ opj = "{}"
Next ==
  \/ \E i \in Ids, n \in NMax, c \in Caps, l \in {-1, 0, 2} : New(i, l, n, c) /\ Do([op |-> "new", id |-> i, lmax |-> l, nmax |-> n, cap |-> c])
  \/ \E i \in DOMAIN acc : Count(acc[i]) < MaxLen /\ LET n == ((Count(acc[i]) * Count(acc[i]) + i) % 3) - 1 IN Add(i, X(n)) /\ Do([op |-> "add", id |-> i, x |-> X(n)])
  \/ \E i \in DOMAIN acc, f \in Factors : acc[i].cap <= 8 /\ Compress(i, f) /\ Do([op |-> "compress", id |-> i, f |-> f])
  \/ \E i \in Ids, j \in DOMAIN acc : Copy(i, j) /\ \E w \in {"copy", "h5"} : Do([op |-> w, id |-> i, j |-> j])
Spec == Init /\ [][Next]_mvars
View == acc
\* compressing and accumulating commute with accumulating into bins of the larger capacity, wherever full bins are merged
Same == \A i \in DOMAIN acc : \A f \in Factors :
  LET o == acc[i]
      \* the same samples, accumulated into bins of the capacity which compression gives
      big == [o EXCEPT !.cap = @ * f, !.blk = IF Count(o) = 0 THEN <<0>> ELSE
                [k \in 1..((Count(o) + o.cap * f - 1) \div (o.cap * f)) |-> IF k * o.cap * f <= Count(o) THEN o.cap * f ELSE Count(o) - (k - 1) * o.cap * f]]
  IN o.nmax \notin {0, 1} => Squeezed(o, f).blk = big.blk
===============================================================================
