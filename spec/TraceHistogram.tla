---------------------------- MODULE TraceHistogram ----------------------------
EXTENDS Histogram, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
tv == <<h, i>>
ev == Trace[i]
Shown(o, r) ==
  /\ r.a = <<o.a, o.b>> /\ r.n = o.n /\ r.in = o.in /\ r.out = o.out
  /\ Len(r.data) = o.n /\ \A k \in 1..o.n : r.data[k] = o.data[k]
  /\ o.n > 1 => \A k \in 1..o.n : r.mesh[k] = MeshPoint(o, k - 1)
Q(x) == R(x[1], x[2])
Same(o, p) == o = p
Step ==
  CASE ev.e = "Reset" -> h' = <<>>
    [] ev.e = "New" -> ev.ok = Valid(Q(ev.a), Q(ev.b)) /\ IF ev.ok THEN New(ev.id, Q(ev.a), Q(ev.b), ev.n) ELSE UNCHANGED h
    [] ev.e = "Add" -> Add(ev.id, ev.fin, Q(ev.x))
    [] ev.e = "Sum" -> ev.ok = Alike(h[ev.j], h[ev.k]) /\ IF ev.ok THEN Sum(ev.id, ev.j, ev.k) ELSE UNCHANGED h
    [] ev.e = "Pdf" -> Pdf(ev.id, ev.j)
    [] ev.e = "Cdf" -> Cdf(ev.id, ev.j)
    [] ev.e = "Clear" -> Clear(ev.id)
    [] ev.e = "Copy" -> Copy(ev.id, ev.j)
    [] ev.e = "Eq" -> ev.r = Same(h[ev.j], h[ev.k]) /\ ev.nr = ~ ev.r /\ UNCHANGED h
    [] ev.e = "Obs" -> Shown(h[ev.id], ev.r) /\ UNCHANGED h
    [] ev.e = "Reduce" -> LET s == PlusAll([r \in 1..Len(ev.v) |-> h[ev.v[r]]]) IN
         (\A r \in 1..Len(ev.v) : (ev.all \/ r = ev.root + 1) => Shown(s, ev.r[r])) /\ UNCHANGED h
    [] ev.e = "Bcast" -> (\A r \in 1..Len(ev.v) : Shown(h[ev.v[ev.root + 1]], ev.r[r])) /\ UNCHANGED h
    [] OTHER -> FALSE
TInit == h = <<>> /\ i = 1
TNext == i <= Len(Trace) /\ Step /\ i' = i + 1
TSpec == TInit /\ [][TNext]_tv
TraceAccepted == LET k == TLCGet("stats").diameter IN IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", k>>, FALSE)
===============================================================================
