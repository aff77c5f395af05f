---------------------------- MODULE RandomStream ----------------------------
(* Buffered streams and random number generators, seen from outside: a handle is a position in a fixed stream. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  ref,   \* the underlying stream, as integers (30 leading bits of a number of [0,1)); <<>>: the counter 0,1,2,...
  h      \* handle -> position, or -1 when the handle holds nothing (moved from)
vars == <<ref, h>>
Bits == 1073741824
Abs(x) == IF x < 0 THEN -x ELSE x
Val(p) == IF ref = <<>> THEN p ELSE ref[p + 1]
Setup(r, H) == ref' = r /\ h' = [i \in 1..H |-> IF i = 1 THEN 0 ELSE -1]
Advance(i, k) == h' = [h EXCEPT ![i] = @ + k] /\ UNCHANGED ref
Draw(i, v) == h[i] >= 0 /\ v = Val(h[i]) /\ Advance(i, 1)
Skip(i, k, v) == k > 0 /\ h[i] >= 0 /\ v = Val(h[i] + k - 1) /\ Advance(i, k)
Preview(i, v) == h[i] >= 0 /\ v = Val(h[i]) /\ UNCHANGED vars
Copy(i, j) == h[i] >= 0 /\ i # j /\ h' = [h EXCEPT ![j] = h[i]] /\ UNCHANGED ref
Move(i, j) == h[i] >= 0 /\ i # j /\ h' = [h EXCEPT ![j] = h[i], ![i] = -1] /\ UNCHANGED ref
New(i) == h' = [h EXCEPT ![i] = 0] /\ UNCHANGED ref
(* floor(n * x) for x given by its 30 leading bits; x may exceed them by less than one unit, and n < 32768 *)
FloorMul(n, x) == LET hi == x \div 32768 lo == x % 32768 IN (n * hi + (n * lo) \div 32768) \div 32768
DrawInt(i, n, r) ==
  /\ h[i] >= 0 /\ r >= 0 /\ r < n
  /\ \/ n = 1 /\ UNCHANGED vars
     \/ n > 1 /\ r \in {FloorMul(n, Val(h[i])), FloorMul(n, Val(h[i]) + 1)} /\ Advance(i, 1)
(* a draw scaled to an interval: q is the relative position in the interval, inside tells r was in [a, b) *)
DrawScaled(i, q, inside) == h[i] >= 0 /\ inside /\ Abs(q - Val(h[i])) <= 64 /\ Advance(i, 1)
==============================================================================
