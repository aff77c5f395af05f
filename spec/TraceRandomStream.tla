-------------------------- MODULE TraceRandomStream --------------------------
EXTENDS RandomStream, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Is(e) == Trace[l].e = e
ev == Trace[l]
TInit == l = 1 /\ ref = <<>> /\ h = <<>>
Step ==
  \/ Is("Reset") /\ Setup(ev.ref, ev.H)
  \/ Is("Draw") /\ Draw(ev.i, ev.v)
  \/ Is("Skip") /\ Skip(ev.i, ev.k, ev.v)
  \/ Is("Preview") /\ Preview(ev.i, ev.v)
  \/ Is("Copy") /\ Copy(ev.i, ev.j)
  \/ Is("Move") /\ Move(ev.i, ev.j)
  \/ Is("New") /\ New(ev.i)
  \/ Is("DrawInt") /\ DrawInt(ev.i, ev.n, ev.r)
  \/ Is("DrawScaled") /\ DrawScaled(ev.i, ev.q, ev.inside)
  \* names: exactly the listed names (and the empty one) are accepted, the listed ones being the documented ones
  \/ Is("Names") /\ ev.listed = ev.joined /\ ev.listed = ev.documented /\ ev.refused = <<>> /\ UNCHANGED vars
  \/ Is("Unknown") /\ ev.refused /\ UNCHANGED vars
  \/ Is("Name") /\ ev.got = ev.want /\ UNCHANGED vars
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == LET n == TLCGet("stats").diameter IN IF n - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", n>>, FALSE)
===============================================================================
