---------------------------- MODULE TraceRootFind ----------------------------
EXTENDS RootFind, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
ev == Trace[i]
Step ==
  CASE ev.e = "Reset" -> st' = NoRun
    [] ev.e = "Start" -> Start(ev.algo, ev.max, ev.must)
    [] ev.e = "Eval" -> Eval(ev.x, ev.k, ev.s, ev.w)
    [] ev.e = "Found" -> ev.same /\ Found(ev.x, ev.sl, ev.sh)
    [] ev.e = "Fail" -> Fail
    [] OTHER -> FALSE
TInit == st = NoRun /\ i = 1
TNext == i <= Len(Trace) /\ Step /\ i' = i + 1
TSpec == TInit /\ [][TNext]_<<st, i>>
TraceAccepted == LET k == TLCGet("stats").diameter IN IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", k>>, FALSE)
===============================================================================
