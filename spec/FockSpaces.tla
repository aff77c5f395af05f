----------------------------- MODULE FockSpaces -----------------------------
(* The full Fock space over n orbitals and ordered subspaces.  A Fock state is the ascending list of occupied positions;
   in the full space the index of a state is the number with these bits, so that index and state are the same list. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANT Regs
VARIABLES n, sub
In(x, s) == \E i \in 1..Len(s) : s[i] = x
NewSub(i) == [index |-> i, states |-> <<>>]
Init == n = -1 /\ sub = [d \in Regs |-> NewSub(-1)]
InFull(f) == \A i \in 1..Len(f) : f[i] < n
Pow2(k) == 2 ^ k
Full(k) == n' = k /\ UNCHANGED sub
Put(d, s) == sub' = [sub EXCEPT ![d] = s] /\ UNCHANGED n
New(d, i) == Put(d, NewSub(i))
SetIndex(d, i) == Put(d, [sub[d] EXCEPT !.index = i])
Add(d, f) == ~In(f, sub[d].states) /\ Put(d, [sub[d] EXCEPT !.states = Append(@, f)])
IndexOf(d, f) == (CHOOSE i \in 1..Len(sub[d].states) : sub[d].states[i] = f) - 1
Distinct == \A d \in Regs : \A i, j \in 1..Len(sub[d].states) : sub[d].states[i] = sub[d].states[j] => i = j
=============================================================================
