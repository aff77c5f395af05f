------------------------------ MODULE MCMpiWork ------------------------------
(* All interleavings of the distributed loop for small stacks and few ranks; slices for all small ranges. *)
EXTENDS MpiWork, TLC, Json
CONSTANTS Sizes, MaxItems, Spawn, MaxSlice
VARIABLES opj, items
vars == <<w, opj, items>>
Stacks == UNION {[1..n -> {None, 1, 2, 3}] : n \in 0..MaxItems}
Distinct(s) == \A i, j \in 1..Len(s) : i # j /\ s[i] # None => s[i] # s[j]
ASSUME \A size \in 1..5, n \in 0..MaxSlice : Slices(4, 4 + n - 1, [r \in 1..size |-> Part(4, 4 + n - 1, size, r - 1)])
\* treating item x > 1 of the first generation puts item x + 10 on the stack
More(x) == IF Spawn /\ x \in 2..9 THEN <<x + 10>> ELSE <<>>
All == {1, 2, 3, 12, 13}
Nodes == 0..3
Init == \E size \in Sizes, s \in Stacks : Distinct(s) /\ w = NewLoop(size, s) /\ items = s /\ opj = ToJson([size |-> size, items |-> s])
Next ==
  /\ UNCHANGED <<opj, items>>
  /\ \/ \E x \in All \cup {None} : Take(x)
     \/ \E n \in Nodes, x \in All : Start(n, x) \/ Finish(n, x) \/ Treat(n, x, F(x), More(x))
     \/ \E x \in All : StartEarly(x)
     \/ \E n \in Nodes : n < w.size /\ (n > 0 /\ w.size > 1 => w.todo = <<>> /\ \A x \in All : Waiting(x) = 0) /\ Leave(n)
     \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == w
Once == \A x \in All : Count([i \in 1..Len(w.done) |-> w.done[i][2]], x) <= 1
Complete == w.over => \A i \in 1..Len(items) : items[i] # None => Count([j \in 1..Len(w.done) |-> w.done[j][2]], items[i]) = 1
Terminates == <>(w.over)
===============================================================================
