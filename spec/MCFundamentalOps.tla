-------------------------- MODULE MCFundamentalOps --------------------------
EXTENDS FundamentalOps, Json
CONSTANTS Names, MaxLen
VARIABLE opj
Next == \/ \E d \in Regs, x \in Names : Insert(d, x) /\ opj' = ToJson([op |-> "insert", d |-> d, x |-> x])
        \/ \E d, a \in Regs : Merge(d, a) /\ opj' = ToJson([op |-> "merge", d |-> d, a |-> a])
        \/ \E d, a \in Regs : Copy(d, a) /\ opj' = ToJson([op |-> "copy", d |-> d, a |-> a])
        \/ \E d, a \in Regs : f' = f /\ opj' = ToJson([op |-> "eq", d |-> d, a |-> a])
        \/ \E d \in Regs, x \in Names : f' = f /\ opj' = ToJson([op |-> "look", d |-> d, x |-> x])
        \/ \E d \in Regs : f' = f /\ opj' = ToJson([op |-> "walk", d |-> d])
Spec == Init /\ opj = "{}" /\ [][Next]_<<f, opj>>
\* once given, a position is kept until the register is overwritten
Keeps == [][\A d \in Regs : (Len(f'[d]) > Len(f[d]) /\ \E x \in Names : f'[d] = Ins(f[d], x)) => \A i \in 1..Len(f[d]) : f'[d][i] = f[d][i]]_f
MView == f
=============================================================================
