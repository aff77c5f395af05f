--------------------------- MODULE TraceMonteCarlo ---------------------------
(* Is a recorded sequence of events of the real engine a behaviour of MonteCarlo? *)
EXTENDS MonteCarlo, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Is(e) == Trace[l].e = e
ev == Trace[l]
TInit ==
  /\ l = 1 /\ conf = [draws |-> <<>>, tree |-> <<>>, cplx |-> FALSE, rethrow |-> TRUE] /\ pc = "none" /\ run = NoRun /\ k = 0 /\ nc = 0 /\ d = 0
  /\ cur = NoCur /\ sign = 0 /\ cid = 0 /\ ncyc = <<0, 0>> /\ nmeas = {0} /\ stat = [p |-> EmptyFcn, a |-> EmptyFcn, ok |-> TRUE] /\ rates = <<>>
  /\ reg = EmptyFcn /\ auxs = <<>> /\ duty = FALSE /\ todo = <<>> /\ rep = {} /\ sig = FALSE /\ cut = FALSE /\ file = [none |-> TRUE]
Step ==
  \/ Is("Reset") /\ pc \in {"none", "idle", "aborted"} /\ Reset([draws |-> ev.draws, tree |-> ev.tree, cplx |-> ev.cplx, rethrow |-> ev.rethrow])
  \/ Is("NewObject") /\ NewObject
  \/ Is("AddMeasure") /\ AddMeasure(ev.n, ev.rep, ev.plain, ev.ok)
  \/ Is("RmMeasure") /\ RmMeasure(ev.n)
  \/ Is("ClearMeasures") /\ ClearMeasures
  \/ Is("AddAux") /\ AddAux(ev.k)
  \/ Is("SetDuty") /\ SetDuty(ev.on)
  \/ Is("UserDraw") /\ UserDraw(ev.v)
  \/ Is("RunBegin") /\ RunBegin(ev.op, ev.n, ev.len, ev.nw, ev.meas, ev.s0)
  \/ Is("Signal") /\ Signal
  \/ Is("Attempt") /\ Attempt(ev.id, ev.m, ev.r24, ev.ph, ev.extra, ev.thr)
  \/ Is("Accept") /\ Accept(ev.id, ev.ph, ev.thr)
  \/ Is("Reject") /\ Reject(ev.id, ev.thr)
  \/ Is("Duty") /\ Duty(ev.thr)
  \/ Is("Aux") /\ Aux(ev.k, ev.thr)
  \/ Is("Measure") /\ Measure(ev.n, ev.s, ev.thr)
  \/ Is("Report") /\ Report(ev.n)
  \/ Is("Poll") /\ Poll(ev.r)
  \/ Is("RunEnd") /\ RunEnd(ev.status)
  \/ Is("RunError") /\ RunError
  \/ Is("Aborted") /\ Aborted
  \/ Is("Get") /\ Get(ev.pct, ev.ncyc, ev.cid)
  \/ Is("CollectBegin") /\ CollectBegin
  \/ Is("CollectM") /\ CollectM(ev.n, ev.cnt)
  \/ Is("MoveCollect") /\ MoveCollect(ev.id)
  \/ Is("CollectEnd") /\ CollectEnd(ev.rates)
  \/ Is("Rates") /\ Rates(ev.rates)
  \/ Is("Times") /\ Times(ev.still, ev.sum, ev.neg)
  \/ Is("Save") /\ Save(ev.ncyc, ev.nmeas, ev.s, ev.ms, ev.mv)
  \/ Is("LoadBegin") /\ LoadBegin
  \/ Is("MeasLoad") /\ MeasLoad(ev.n, ev.cnt)
  \/ Is("MoveLoad") /\ MoveLoad(ev.id, ev.v)
  \/ Is("LoadEnd") /\ LoadEnd
  \/ Is("Multi") /\ Multi(ev.counts, ev.rates, ev.bad)
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == LET n == TLCGet("stats").diameter IN IF n - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", n>>, FALSE)
==============================================================================
