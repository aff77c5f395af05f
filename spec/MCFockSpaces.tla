---------------------------- MODULE MCFockSpaces ----------------------------
EXTENDS FockSpaces, Json
CONSTANTS States, Indices
VARIABLE opj
SmallStates == {<<>>, <<0>>, <<0, 2>>, <<63>>}
ManyStates == SmallStates \cup {<<31>>, <<32>>, <<1, 31, 33>>, <<0, 1, 2, 3>>}
Q(op) == UNCHANGED <<n, sub>> /\ opj' = ToJson(op)
Next == \/ \E d \in Regs, f \in States : Add(d, f) /\ opj' = ToJson([op |-> "add", d |-> d, f |-> f])
        \/ \E d \in Regs, i \in Indices : SetIndex(d, i) /\ opj' = ToJson([op |-> "setindex", d |-> d, i |-> i])
        \/ \E d, a \in Regs : Put(d, sub[a]) /\ \E o \in {"copy", "h5"} : opj' = ToJson([op |-> o, d |-> d, a |-> a])
        \/ \E d \in Regs, i \in Indices : New(d, i) /\ opj' = ToJson([op |-> "new", d |-> d, i |-> i])
        \/ \E d \in Regs, f \in States : Q([op |-> "has", d |-> d, f |-> f]) \/ (In(f, sub[d].states) /\ Q([op |-> "index", d |-> d, f |-> f]))
        \/ \E d, a \in Regs : Q([op |-> "eq", d |-> d, a |-> a])
        \/ \E d \in Regs : Q([op |-> "all", d |-> d])
Spec == Init /\ opj = "{}" /\ [][Next]_<<n, sub, opj>>
Lookup == \A d \in Regs : \A i \in 1..Len(sub[d].states) : IndexOf(d, sub[d].states[i]) = i - 1
MView == <<n, sub>>
=============================================================================
