----------------------------- MODULE TraceMcRanks -----------------------------
EXTENDS McRanks, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Is(e) == Trace[l].e = e
ev == Trace[l]
TInit == l = 1 /\ cf = [nranks |-> 0, rethrow |-> TRUE, env |-> TRUE] /\ pc = <<>> /\ rn = <<>> /\ goal = <<>> /\ cyc = <<>> /\ meas = <<>> /\ stopped = <<>> /\ fails = {}
Over == \A r \in Ranks : pc[r] \in {"idle", "dead"}
Step ==
  \/ Is("Reset") /\ Over /\ Setup([nranks |-> ev.nranks, rethrow |-> ev.rethrow, env |-> ev.env])
  \/ Is("Begin") /\ Begin(ev.rk, ev.n, ev.meas)
  \/ Is("Fail") /\ Fail(ev.rk)
  \/ Is("Measure") /\ Measure(ev.rk)
  \/ Is("Poll") /\ Poll(ev.rk, ev.r)
  \/ Is("End") /\ End(ev.rk, ev.st)
  \/ Is("Error") /\ Error(ev.rk)
  \/ Is("Abort") /\ Abort(ev.rk)
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == LET n == TLCGet("stats").diameter IN IF n - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", n>>, FALSE)
===============================================================================
