-------------------------- MODULE TraceFockSpaces --------------------------
EXTENDS FockSpaces, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Is(e) == Trace[l].e = e
ev == Trace[l]
Still == UNCHANGED <<n, sub>>
Sorted(p) == SetToSortSeq({p[i] : i \in 1..Len(p)}, <)
Ok ==
  \/ Is("Reset") /\ n' = -1 /\ sub' = [d \in Regs |-> NewSub(-1)]
  \/ Is("Full") /\ Full(ev.n) /\ ev.size = Pow2(ev.n)
  \/ Is("FSize") /\ Still /\ ev.size = Pow2(n)
  \/ Is("FHas") /\ Still /\ ev.has = InFull(ev.f)
  \/ Is("FIndex") /\ Still /\ ev.thrown = ~InFull(ev.f) /\ (~ev.thrown => ev.i = ev.f)
  \/ Is("FFock") /\ Still /\ ev.thrown = ~InFull(ev.i) /\ (~ev.thrown => ev.f = ev.i)
  \/ Is("FGen") /\ Still /\ ev.thrown = (\E i \in 1..Len(ev.p) : ev.p[i] >= ev.n) /\ (~ev.thrown => ev.f = Sorted(ev.p))
  \/ Is("FEq") /\ Still /\ ev.eq = (ev.n = n) /\ ev.ne = ~ev.eq
  \/ Is("New") /\ New(ev.d, ev.i)
  \/ Is("SetIndex") /\ SetIndex(ev.d, ev.i)
  \/ Is("Add") /\ Add(ev.d, ev.f) /\ ev.size = Len(sub'[ev.d].states)
  \/ Is("Has") /\ Still /\ ev.has = In(ev.f, sub[ev.d].states)
  \/ Is("Index") /\ Still /\ ev.i = IndexOf(ev.d, ev.f)
  \/ Is("Fock") /\ Still /\ ev.f = sub[ev.d].states[ev.i + 1]
  \/ Is("All") /\ Still /\ ev.v = sub[ev.d].states /\ ev.ix = [i \in 1..Len(ev.v) |-> i - 1] /\ ev.size = Len(ev.v) /\ ev.i = sub[ev.d].index
  \/ Is("SCopy") /\ Put(ev.d, sub[ev.a])
  \/ Is("SEq") /\ Still /\ ev.eq = (sub[ev.d] = sub[ev.a]) /\ ev.ne = ~ev.eq
TInit == l = 1 /\ Init
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == TInit /\ [][TNext]_<<l, n, sub>>
TraceAccepted == LET k == TLCGet("stats").diameter IN IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", k>>, FALSE)
============================================================================
