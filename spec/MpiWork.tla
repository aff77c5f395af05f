------------------------------- MODULE MpiWork -------------------------------
(* Work shared by ranks.
   1. Slices: the items lo..hi are cut into one part per rank, in the order of the ranks.
   2. A distributed loop: the master takes items from a stack and has them computed by the workers 1..size-1 and by a
      child process of its own (node 0); every value goes back to the master, which may then add items to the stack. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE w
\* --- slices: parts[r+1] = <<first, last>> of rank r, empty if last < first
Size(p) == IF p[2] < p[1] THEN 0 ELSE p[2] - p[1] + 1
RECURSIVE Total(_)
Total(ps) == IF ps = <<>> THEN 0 ELSE Size(Head(ps)) + Total(Tail(ps))
Slices(lo, hi, ps) ==
  /\ Total(ps) = hi - lo + 1
  /\ \A i, j \in 1..Len(ps) : Size(ps[i]) - Size(ps[j]) <= 1
  /\ \A i \in 1..Len(ps) : Size(ps[i]) > 0 => ps[i][1] = lo + Total(SubSeq(ps, 1, i - 1))
Part(lo, hi, size, r) == LET n == hi - lo + 1 q == n \div size e == n % size first == lo + r * q + (IF r < e THEN r ELSE e) IN <<first, first + q - (IF r < e THEN 0 ELSE 1)>>
\* --- the loop
None == -1
F(x) == 3 * x + 1
NewLoop(size, items) == [size |-> size, todo |-> items, taken |-> <<>>, busy |-> {}, computed |-> {}, done |-> <<>>, left |-> {}, early |-> <<>>, over |-> FALSE]
Begin(size, items) == w' = NewLoop(size, items)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
\* the master takes the next item; the item None stands for "nothing to compute now"
Take(x) == IF w.early # <<>> THEN x = Head(w.early) /\ w' = [w EXCEPT !.early = <<>>]
           ELSE ~w.over /\ w.todo # <<>> /\ x = Head(w.todo) /\ w' = [w EXCEPT !.todo = Tail(@), !.taken = IF x = None THEN @ ELSE Append(@, x)]
Waiting(x) == Count(w.taken, x) - Cardinality({c \in w.busy \cup w.computed : c[2] = x}) - Count([i \in 1..Len(w.done) |-> w.done[i][2]], x)
\* the child of the master may begin before the master itself goes on past the item
StartEarly(x) == w.early = <<>> /\ w.size > 1 /\ w.todo # <<>> /\ x = Head(w.todo) /\ x # None /\ (\A c \in w.busy : c[1] # 0) /\ w' = [w EXCEPT !.todo = Tail(@), !.taken = Append(@, x), !.busy = @ \cup {<<0, x>>}, !.early = <<x>>]
Start(n, x) == n \in 0..(w.size-1) /\ n \notin w.left /\ Waiting(x) > 0 /\ (\A c \in w.busy : c[1] # n) /\ w' = [w EXCEPT !.busy = @ \cup {<<n, x>>}]
Finish(n, x) == <<n, x>> \in w.busy /\ w' = [w EXCEPT !.busy = @ \ {<<n, x>>}, !.computed = @ \cup {<<n, x>>}]
\* a value is handed to the master once, with the node that computed it; new items go on the stack
Treat(n, x, v, more) == w.early = <<>> /\ <<n, x>> \in w.computed /\ v = F(x) /\ w' = [w EXCEPT !.computed = @ \ {<<n, x>>}, !.done = Append(@, <<n, x>>), !.todo = more \o @]
\* a rank leaves the loop when nothing is left to take for good
AllDone == w.todo = <<>>
Leave(n) == n \notin w.left /\ (\A c \in w.busy \cup w.computed : c[1] # n) /\ (n = 0 \/ w.size = 1 => w.todo = <<>> /\ w.busy = {} /\ w.computed = {} /\ Len(w.done) = Len(w.taken)) /\ w' = [w EXCEPT !.left = @ \cup {n}]
Over == w.early = <<>> /\ w.left = 0..(w.size-1) /\ w.todo = <<>> /\ Len(w.done) = Len(w.taken) /\ ~w.over /\ w' = [w EXCEPT !.over = TRUE]
===============================================================================
