------------------------------ MODULE TraceMesh ------------------------------
EXTENDS Mesh, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
tv == <<ms, i>>
ev == Trace[i]
\* the parameters which matter
Norm(p) ==
  CASE p.t = "imfreq" -> [t |-> p.t, beta |-> Q(p.beta), s |-> p.s, n |-> p.n, pos |-> p.pos]
    [] p.t \in {"imtime", "legendre"} -> [t |-> p.t, beta |-> Q(p.beta), s |-> p.s, n |-> p.n]
    [] p.t \in {"retime", "refreq"} -> [t |-> p.t, a |-> Q(p.a), b |-> Q(p.b), n |-> p.n]
    [] p.t = "discrete" -> [t |-> p.t, n |-> p.n]
    [] OTHER -> [t |-> p.t, u |-> p.u, d |-> p.d]
ObsOk(m, e) ==
  LET P == TLCEval(Points(m)) F == Factors(m) IN
  /\ e.size = Len(P) /\ Len(e.pts) = Len(P) /\ e.hash
  /\ e.comp = [k \in 1..Len(F) |-> SizeOf(F[k])]
  /\ \A k \in 1..Len(P) : LET p == P[k] o == e.pts[k] IN
       /\ o[1] = p[1] /\ o[3] = p[1] /\ o[5] = p[1] /\ o[7] = p[1]
       /\ o[2] = p[2] /\ o[4] = p[2] /\ o[6] = p[2] /\ o[8] = p[2]
  /\ e.hasvals => \A k \in 1..Len(P) : LET v == Value(m, P[k][1]) IN \A c \in 1..3 : e.vals[k][c] = v
  /\ e.ends # <<>> => e.ends = <<FirstIndex(m), LastIndex(m)>>
KOk(m, e) ==
  LET A == <<IndexAt(m, e.a), IndexAt(m, e.b), IndexAt(m, e.c)>> C == Combos(e.n) IN
  /\ Len(e.r) = Len(C)
  /\ \A k \in 1..Len(C) : LET idx == IdxCombo(m, A, C[k]) wr == Wrap(m, idx) r == e.r[k] IN
       /\ r[1] = wr /\ r[2] = PosOf(m, wr) /\ r[3] = Value(m, idx) /\ r[4] = <<e.f[PosOf(m, wr) + 1], 1>> /\ r[5] = wr
Arg(m, a) == IF m.t = "brzone" THEN [k \in 1..3 |-> Q(a[2][k])] ELSE Q(a[2])
Step ==
  CASE ev.e = "Reset" -> ms' = <<>>
    [] ev.e = "New" -> New(ev.id, Norm(ev.p))
    [] ev.e = "Prod" -> Prod(ev.id, ev.a)
    [] ev.e = "Copy" -> Copy(ev.id, ev.j)
    [] ev.e = "Positive" -> Positive(ev.id, ev.j)
    [] ev.e = "Obs" -> ObsOk(ms[ev.id], ev) /\ UNCHANGED ms
    [] ev.e = "Eq" -> ev.r = Equal(ev.j, ev.k) /\ ev.nr = ~ ev.r /\ UNCHANGED ms
    [] ev.e = "Valid" -> (\A k \in 1..Len(ev.x) : ev.r[k] = Valid(ms[ev.id], ev.x[k])) /\ Len(ev.r) = Len(ev.x) /\ UNCHANGED ms
    [] ev.e = "Closest" -> LET m == ms[ev.id] IN ev.i \in ClosestSet(m, Arg(m, ev.x)) /\ ev.d = <<PosOf(m, ev.i)>> /\ ev.p = ev.i /\ UNCHANGED ms
    [] ev.e = "Eval" -> ev.r = Evaluated(ms[ev.id], ev.f, ev.x) /\ UNCHANGED ms
    [] ev.e = "KExpr" -> KOk(ms[ev.id], ev) /\ UNCHANGED ms
    [] OTHER -> FALSE
TInit == ms = <<>> /\ i = 1
TNext == i <= Len(Trace) /\ Step /\ i' = i + 1
TSpec == TInit /\ [][TNext]_tv
TraceAccepted == LET k == TLCGet("stats").diameter IN IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", k>>, FALSE)
===============================================================================
