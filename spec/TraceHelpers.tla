----------------------------- MODULE TraceHelpers -----------------------------
EXTENDS Helpers, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Is(e) == Trace[l].e = e
ev == Trace[l]
TInit == l = 1 /\ depth = 0 /\ gs = <<>> /\ ran = <<>> /\ rep = <<>> /\ txt = "" /\ now = 0 /\ tm = <<>> /\ exc = <<>>
Two(x) == IF x < 10 THEN "0" \o ToString(x) ELSE ToString(x)
Hms(s) == Two(s \div 3600) \o ":" \o Two((s % 3600) \div 60) \o ":" \o Two(s % 60)
Step ==
  \/ Is("Reset") /\ Setup
  \/ Is("Enter") /\ Enter
  \/ Is("Guard") /\ Guard(ev.i, ev.a)
  \/ Is("Dismiss") /\ Dismiss(ev.i)
  \/ Is("Active") /\ Active(ev.i, ev.r)
  \/ Is("MoveNew") /\ MoveNew(ev.i, ev.j)
  \/ Is("MoveAssign") /\ MoveAssign(ev.i, ev.j)
  \/ Is("Leave") /\ Leave(ev.ran)
  \/ Is("Report") /\ Report(ev.v)
  \/ Is("Level") /\ Level(ev.k, ev.n)
  \/ Is("Print") /\ PrintTo(ev.k, ev.s, ev.seen)
  \/ Is("PrintLevel") /\ PrintLevel(ev.k, ev.n, ev.s, ev.seen)
  \/ Is("Elapse") /\ Elapse(ev.ms)
  \/ Is("TStart") /\ TStart(ev.i)
  \/ Is("TStop") /\ TStop(ev.i)
  \/ Is("TRead") /\ TRead(ev.i, ev.ms, ev.r)
  \/ Is("TReset") /\ TReset(ev.i)
  \/ Is("XNew") /\ XNew(ev.i)
  \/ Is("XAdd") /\ XAdd(ev.i, ev.s)
  \/ Is("XCopy") /\ XCopy(ev.i, ev.j)
  \/ Is("XWhat") /\ XWhat(ev.i, ev.s)
  \/ Is("Hms") /\ ev.s = Hms(ev.sec) /\ UNCHANGED vars
  \/ Is("Eta") /\ ev.s = Hms(((ev.n - 1 - ev.it) * ev.el) \div (ev.it + 1)) /\ UNCHANGED vars
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == LET n == TLCGet("stats").diameter IN IF n - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", n>>, FALSE)
===============================================================================
