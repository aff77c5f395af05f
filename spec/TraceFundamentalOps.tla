------------------------ MODULE TraceFundamentalOps ------------------------
EXTENDS FundamentalOps, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Is(e) == Trace[l].e = e
ev == Trace[l]
Enum(s) == [i \in 1..Len(s) |-> <<s[i], i - 1>>]
RECURSIVE IntNames(_, _)
IntNames(sizes, i) == IF i > Len(sizes) THEN <<>> ELSE [j \in 1..sizes[i] |-> "|i" \o ToString(i - 1) \o "|i" \o ToString(j - 1)] \o IntNames(sizes, i + 1)
RECURSIVE GfNames(_)
GfNames(b) == IF b = <<>> THEN <<>> ELSE [j \in 1..b[1][2] |-> "|s" \o b[1][1] \o "|i" \o ToString(j - 1)] \o GfNames(Tail(b))
Same(e) == f'[e.d] = e.v
Ok ==
  \/ Is("Reset") /\ f' = [d \in Regs |-> <<>>]
  \/ Is("Insert") /\ Insert(ev.d, ev.t) /\ Same(ev) /\ ev.n = Len(f'[ev.d])
  \/ Is("Merge") /\ Merge(ev.d, ev.a) /\ Same(ev)
  \/ Is("Copy") /\ Copy(ev.d, ev.a) /\ Same(ev)
  \/ Is("From") /\ FromList(ev.d, ev.given) /\ Same(ev)
  \/ Is("Ints") /\ FromList(ev.d, IntNames(ev.sizes, 1)) /\ Same(ev)
  \/ Is("Gf") /\ FromList(ev.d, GfNames(ev.blocks)) /\ Same(ev)
  \/ Is("Look") /\ f' = f /\ ev.has = In(ev.t, f[ev.d]) /\ ev.thrown = ~ev.has /\ ev.pos = Position(ev.t, f[ev.d])
  \/ Is("Walk") /\ f' = f /\ ev.fwd = Enum(f[ev.d]) /\ ev.cfwd = Enum(f[ev.d]) /\ ev.conv = f[ev.d]
  \/ Is("Eq") /\ f' = f /\ ev.eq = (f[ev.d] = f[ev.a])
TInit == l = 1 /\ Init
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == TInit /\ [][TNext]_<<l, f>>
TraceAccepted == LET n == TLCGet("stats").diameter IN IF n - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", n>>, FALSE)
============================================================================
