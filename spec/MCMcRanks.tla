------------------------------ MODULE MCMcRanks ------------------------------
EXTENDS McRanks
CONSTANTS NR, MaxN, MaxRuns, Env, Rethrow
Init == /\ cf = [nranks |-> NR, rethrow |-> Rethrow, env |-> Env] /\ pc = [r \in 0..NR-1 |-> "idle"] /\ rn = [r \in 0..NR-1 |-> 0] /\ goal = [r \in 0..NR-1 |-> 0]
        /\ cyc = [r \in 0..NR-1 |-> 0] /\ meas = [r \in 0..NR-1 |-> FALSE] /\ stopped = [r \in 0..NR-1 |-> FALSE] /\ fails = {}
\* the runs are collective: every rank begins each of them
DoBegin(r) == \E n \in {-1} \cup 1..MaxN, m \in BOOLEAN : rn[r] < MaxRuns /\ (n = -1 => r # 0) /\ Begin(r, n, m)
DoFail(r) == Cardinality(fails) < 2 /\ Fail(r)
\* an unlimited run lasts until somebody else fails, or is stopped by its callback; three cycles stand for "many"
DoPoll(r) == \E x \in BOOLEAN : (goal[r] = -1 /\ cyc[r] >= 3 => x \/ FailedRun(rn[r])) /\ Poll(r, x)
DoEnd(r) == (\E st \in 0..1 : End(r, st)) \/ Error(r) \/ Abort(r)
Step(r) == DoBegin(r) \/ DoFail(r) \/ DoPoll(r) \/ DoEnd(r)
\* Abort takes the whole program down
Next == \E r \in Ranks : Step(r)
Spec == Init /\ [][Next]_vars /\ \A r \in 0..NR-1 : WF_vars(DoBegin(r)) /\ WF_vars(DoPoll(r)) /\ WF_vars(DoEnd(r))
Bounded == \A r \in Ranks : cyc[r] <= 4
-----------------------------------------------------------------------------
(* nobody returns normally from a run which some rank failed or will fail *)
Collective == [][\A r \in Ranks : pc[r] = "left" /\ pc'[r] = "idle" /\ Watching => ~\E q \in Ranks : rn[q] = rn[r] /\ pc[q] \in {"cycle", "failed"}]_vars
LateFailure == Watching => \A f \in fails : \A q \in Ranks : rn[q] > f[2] => pc[f[1]] # "failed" \/ rn[f[1]] # f[2]
(* a rank never fails two runs apart from the others: the failing rank has left its own run before anybody begins the next *)
InStep == Watching => \A q, r \in Ranks : (rn[q] > rn[r] + 1) => FALSE
(* every run ends for every rank *)
AllLeave == \A r \in 0..NR-1 : (pc[r] \in {"cycle", "failed", "left"}) ~> (pc[r] \in {"idle", "dead"})
==============================================================================
