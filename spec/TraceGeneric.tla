----------------------------- MODULE TraceGeneric -----------------------------
EXTENDS Generic, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Is(e) == Trace[l].e = e
ev == Trace[l]
Enum(s) == [i \in 1..Len(s) |-> <<i - 1, s[i]>>]
Zip(s, t) == [i \in 1..Len(s) |-> <<s[i], t[i]>>]
Replace(s, I, x) == [i \in 1..Len(s) |-> IF \E k \in 1..Len(I) : I[k] = i - 1 THEN x ELSE s[i]]
Ok ==
  \/ Is("Reset")
  \/ Is("Tuple") /\ LET t == ev.t u == ev.u IN
       /\ ev.apply = Horner(t) /\ ev.construct = t /\ ev.called = Horner(t) /\ ev.foreach = t /\ ev.enumerate = Enum(t)
       /\ ev.zip = Zip(t, u) /\ ev.map = Map(LAMBDA x : 2 * x + 1, t) /\ ev.mapzip = [i \in 1..Len(t) |-> t[i] - 5 * u[i]]
       /\ ev.fold = Fold(t, 7) /\ ev.fold2 = Fold2(t, u, 7) /\ ev.rev = Rev(t) /\ ev.push_back = Append(t, 99) /\ ev.push_front = <<99>> \o t
       /\ ev.pop_front = Tail(t) /\ ev.str = "(" \o Join(t, ",") \o ")" /\ ev.rep = <<t[1], t[1], t[1]>>
       /\ ev.after = t
  \/ Is("Select") /\ ev.filter = Pick(ev.t, ev.I) /\ ev.out = Pick(ev.t, Complement(Len(ev.t), ev.I)) /\ ev.replace = Replace(ev.t, ev.I, -1)
  \/ Is("Bracket") /\ ev.r = Horner(ev.t)
  \/ Is("Factory") /\ ev.r = [i \in 1..Len(ev.t) |-> [k \in 1..Len(ev.t[i]) |-> ev.t[i][k]]]
  \/ Is("Dressed") /\ ev.seen = [i \in 1..Len(ev.t) |-> <<ev.t[i][1], ev.t[i][2] * ev.aux>>] /\ ev.back = Rev(ev.seen) /\ ev.conv
  \/ Is("Variant") /\ ev.str = JoinS(ev.t) /\ ev.each = ev.t   \* t: the texts of the alternatives
  \/ Is("Bin") /\ Bin(ev.o, ev.a, ev.b, ev.r)
  \/ Is("Un") /\ LET a == ev.a IN
       /\ ev.neg = [re |-> -a.re, im |-> -a.im, real |-> a.real] /\ ev.conj = [re |-> a.re, im |-> -a.im, real |-> a.real]
       /\ ev.cre = a.re /\ ev.cim = a.im /\ ev.zero = (a.re = 0 /\ a.im = 0) /\ ev.thrown = ~a.real /\ (a.real => ev.dbl = a.re)
       /\ ev.str = Text(a) /\ ev.abs2 = a.re * a.re + a.im * a.im
  \/ Is("Eq") /\ ev.eq = (ev.a.re = ev.b.re /\ ev.a.im = ev.b.im) /\ ev.ne = ~ev.eq
  \* x and tol in units of 1e-3
  \/ Is("Zero") /\ ev.r = (Abs(ev.x) < ev.tol) /\ ev.c = (Abs(ev.x) < ev.tol /\ Abs(ev.y) < ev.tol) /\ ev.i = (ev.x = 0)
  \/ Is("Parts") /\ ev.r = <<ev.x, 0, ev.x, ev.x, 0, ev.x, ev.x, ev.y, ev.x, -ev.y>>
  \/ Is("Kron") /\ ev.r = (ev.x = ev.y)
  \/ Is("Leg") /\ ev.q = [n \in 1..Len(ev.q) |-> LegQ(n - 1, ev.a)]
  \/ Is("Tlp") /\ ev.f = Tlp(ev.l, ev.p)
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == TInit /\ [][TNext]_l
TraceAccepted == LET n == TLCGet("stats").diameter IN IF n - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", n>>, FALSE)
===============================================================================
