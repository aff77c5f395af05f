----------------------------- MODULE TraceTimeGrid -----------------------------
EXTENDS TimeGrid, Json, IOUtils
VARIABLES l, p, q \* the period is p/q
Trace == ndJsonDeserialize(IOEnv.TRACE)
Is(e) == Trace[l].e = e
ev == Trace[l]
Two64 == Plus(N, <<1>>)
\* |x - y| q <= y q / 2^50 + q, with x in units of beta/N and y = p n / q
Near(t, n) == LET want == Times(p, n) got == Times(t, q) err == Absdiff(want, got) IN
              Leq(Times(err, <<0, 0, 0, 0, 0, 0, 4>>), Plus(want, Times(q, <<0, 0, 0, 0, 0, 0, 8>>)))
Shown == Same(r'[ev.i], ev.v)
Ok ==
  \/ Is("Reset") /\ r' = [i \in 1..ev.regs |-> <<>>] /\ p' = ev.p /\ q' = ev.q
  \/ UNCHANGED <<p, q>> /\
     \/ Is("Put") /\ Put(ev.i, CASE ev.at = "up" -> N [] ev.at = "eps" -> <<1>> [] ev.at \in {"low", "default"} -> <<>> [] OTHER -> ev.n) /\ Shown
     \/ Is("Add") /\ Add(ev.i, ev.j, ev.k) /\ Shown
     \/ Is("Sub") /\ Sub(ev.i, ev.j, ev.k) /\ Shown
     \/ Is("Neg") /\ Neg(ev.i, ev.j) /\ Shown
     \/ Is("Copy") /\ Copy(ev.i, ev.j) /\ Shown
     \/ Is("Div") /\ Div(ev.i, ev.j, ev.m, ev.v)
     \/ Is("Mult") /\ Mult(ev.i, ev.j, ev.m) /\ Shown
     \/ Is("Floor") /\ IsQuotient(ev.v, r[ev.j], r[ev.k]) /\ UNCHANGED r
     \/ Is("Random") /\ Random(ev.i, ev.a, ev.b, ev.v)
     \/ Is("Compare") /\ UNCHANGED r
        /\ LET c == Compare(r[ev.j], r[ev.k]) IN
           /\ ev.c = c /\ ev.lt = (c < 0) /\ ev.le = (c <= 0) /\ ev.gt = (c > 0) /\ ev.ge = (c >= 0) /\ ev.eq = (c = 0) /\ ev.ne = (c # 0)
           /\ ev.d \in {0, c}
     \/ Is("Value") /\ UNCHANGED r /\ ev.in /\ ev.mixed = [i \in 1..9 |-> 1]
        /\ Near(ev.t, r[ev.j]) /\ (r[ev.j] = <<>> <=> ev.zero) /\ (r[ev.j] = N => ev.top)
     \/ Is("From") /\ Set(ev.i, ev.v) /\ Near(ev.x, ev.v) /\ (ev.low => Strip(ev.v) = <<>>) /\ (ev.up => Same(ev.v, N))
     \/ Is("Stored") /\ Copy(ev.i, ev.j) /\ Shown /\ ev.same
TInit == l = 1 /\ r = <<>> /\ p = <<>> /\ q = <<>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == TInit /\ [][TNext]_<<l, r, p, q>>
TraceAccepted == LET k == TLCGet("stats").diameter IN IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", k>>, FALSE)
===============================================================================
