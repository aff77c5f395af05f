----------------------------- MODULE TraceSignals -----------------------------
EXTENDS Signals, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Is(e) == Trace[l].e = e
ev == Trace[l]
TInit == l = 1 /\ on = FALSE /\ pend = <<>> /\ now = 0 /\ cb = <<>>
Step ==
  \/ Is("Reset") /\ Setup
  \/ Is("Start") /\ Start
  \/ Is("Stop") /\ Stop
  \/ Is("Deliver") /\ Deliver(ev.s)
  \/ Is("Received") /\ Received(ev.pop, ev.r)
  \/ Is("Last") /\ Last(ev.s)
  \/ Is("Pop") /\ Pop
  \/ Is("Callback") /\ Callback(ev.d)
  \/ Is("Elapse") /\ Elapse(ev.ms)
  \/ Is("Ask") /\ Ask(ev.i, ev.r)
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == LET n == TLCGet("stats").diameter IN IF n - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", n>>, FALSE)
===============================================================================
