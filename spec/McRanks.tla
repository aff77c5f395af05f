------------------------------- MODULE McRanks -------------------------------
(* Failure containment of Monte Carlo runs on several ranks: what every rank may observe when a callback fails somewhere. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cf,      \* [nranks, rethrow, env]
  pc,      \* per rank: idle, cycle, failed, left, dead
  rn,      \* per rank: number of runs begun
  goal,    \* per rank: number of cycles of the current run (negative: unlimited)
  cyc,     \* per rank: cycles (polls) done in the current run
  meas,    \* per rank: is this run measuring; measured: already in this cycle
  stopped, \* per rank: the stop callback ended the run
  fails    \* set of <<rank, run>> that failed
vars == <<cf, pc, rn, goal, cyc, meas, stopped, fails>>
Ranks == 0 .. cf.nranks - 1

Setup(c) ==
  LET R == 0 .. c.nranks - 1
  IN /\ cf' = c /\ pc' = [r \in R |-> "idle"] /\ rn' = [r \in R |-> 0] /\ goal' = [r \in R |-> 0] /\ cyc' = [r \in R |-> 0]
     /\ meas' = [r \in R |-> FALSE] /\ stopped' = [r \in R |-> FALSE] /\ fails' = {}

FailedRun(i) == \E f \in fails : f[2] = i
Begin(r, n, m) ==
  /\ pc[r] = "idle"
  /\ pc' = [pc EXCEPT ![r] = "cycle"] /\ rn' = [rn EXCEPT ![r] = @ + 1] /\ goal' = [goal EXCEPT ![r] = n] /\ cyc' = [cyc EXCEPT ![r] = 0]
  /\ meas' = [meas EXCEPT ![r] = m] /\ stopped' = [stopped EXCEPT ![r] = FALSE]
  /\ UNCHANGED <<cf, fails>>
Fail(r) ==
  /\ pc[r] = "cycle"
  /\ pc' = [pc EXCEPT ![r] = "failed"] /\ fails' = fails \cup {<<r, rn[r]>>}
  /\ UNCHANGED <<cf, rn, goal, cyc, meas, stopped>>
Measure(r) == pc[r] = "cycle" /\ meas[r] /\ UNCHANGED vars   \* never in a failed cycle
Poll(r, x) ==
  /\ pc[r] \in {"cycle", "failed"}
  /\ ~(pc[r] = "failed" /\ ~cf.rethrow)
  /\ cyc' = [cyc EXCEPT ![r] = @ + 1] /\ stopped' = [stopped EXCEPT ![r] = @ \/ x]
  /\ \/ pc' = [pc EXCEPT ![r] = "left"] /\ (pc[r] = "failed" \/ x \/ cyc[r] + 1 = goal[r] \/ FailedRun(rn[r]))
     \/ pc' = [pc EXCEPT ![r] = "cycle"] /\ ~(pc[r] = "failed" \/ x \/ cyc[r] + 1 = goal[r])
  /\ UNCHANGED <<cf, rn, goal, meas, fails>>
(* with an MPI environment and rethrowing, nobody returns from a run before everybody has left its loop *)
AllLeft(r) == (cf.env /\ cf.rethrow) => \A q \in Ranks : rn[q] > rn[r] \/ (rn[q] = rn[r] /\ pc[q] \in {"left", "idle"})
Watching == cf.env /\ cf.rethrow
End(r, st) ==
  /\ pc[r] = "left" /\ AllLeft(r)
  /\ (Watching => ~FailedRun(rn[r])) /\ <<r, rn[r]>> \notin fails
  /\ st = IF cyc[r] = goal[r] THEN 0 ELSE 1
  /\ pc' = [pc EXCEPT ![r] = "idle"]
  /\ UNCHANGED <<cf, rn, goal, cyc, meas, stopped, fails>>
Error(r) ==
  /\ pc[r] = "left" /\ cf.rethrow /\ AllLeft(r)
  /\ IF Watching THEN FailedRun(rn[r]) ELSE <<r, rn[r]>> \in fails
  /\ pc' = [pc EXCEPT ![r] = "idle"]
  /\ UNCHANGED <<cf, rn, goal, cyc, meas, stopped, fails>>
Abort(r) ==
  /\ ~cf.rethrow /\ fails # {} /\ pc[r] # "dead"
  /\ pc' = [pc EXCEPT ![r] = "dead"]
  /\ UNCHANGED <<cf, rn, goal, cyc, meas, stopped, fails>>
==============================================================================
