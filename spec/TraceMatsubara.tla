---------------------------- MODULE TraceMatsubara ----------------------------
EXTENDS Matsubara, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
tv == <<fr, i>>
ev == Trace[i]
Q(x) == R(x[1], x[2])
C(z) == <<Q(z[1]), Q(z[2])>>
\* what is seen of a frequency: its members and its conversions to a complex number
SeenOk(f, o) == o.n = f.n /\ o.s = f.s /\ Q(o.b) = f.b /\ \A k \in 1..Len(o.z) : C(o.z[k]) = CI(Value(f))
After == SeenOk(fr'[ev.id], ev.o)
Arg(a) == IF a.t = "f" THEN CI(Value(fr[a.id])) ELSE C(a.z)
Step ==
  CASE ev.e = "Reset" -> fr' = <<>>
    [] ev.e = "New" -> New(ev.id, ev.n, ev.s, Q(ev.b)) /\ After
    [] ev.e = "Add" -> Add(ev.id, ev.j, ev.k) /\ After
    [] ev.e = "Sub" -> Sub(ev.id, ev.j, ev.k) /\ After
    [] ev.e = "Neg" -> Neg(ev.id, ev.j) /\ After
    [] ev.e = "Refused" -> ~ SameBeta(ev.j, ev.k) /\ UNCHANGED fr
    [] ev.e = "Obs" -> SeenOk(fr[ev.id], ev.o) /\ UNCHANGED fr
    \* values
    [] ev.e = "Op" -> C(ev.r) = Apply(ev.op, Arg(ev.x), Arg(ev.y)) /\ UNCHANGED fr
    [] ev.e = "Abs" -> Q(ev.r) = <<AbsI(Value(fr[ev.j])), 1>> /\ UNCHANGED fr
    [] ev.e = "Pow" -> C(ev.r) = (IF ev.p = 0 THEN <<<<1, 1>>, RZero>> ELSE IF ev.p = 1 THEN CI(Value(fr[ev.j])) ELSE IF ev.p = 2 THEN CMul(CI(Value(fr[ev.j])), CI(Value(fr[ev.j]))) ELSE CDiv(<<<<1, 1>>, RZero>>, CI(Value(fr[ev.j])))) /\ UNCHANGED fr
    [] ev.e = "Kron" -> ev.r1 = (fr[ev.j].n = 0) /\ ev.r2 = (fr[ev.j].n = fr[ev.k].n) /\ UNCHANGED fr
    [] ev.e = "Mesh" -> LET f == fr[ev.j] IN ev.valid = InMesh(f, ev.N, ev.pos) /\ (ev.valid => ev.d = Position(f, ev.N, ev.pos) /\ ev.d2 = ev.d /\ SeenOk(f, ev.o)) /\ UNCHANGED fr
    [] OTHER -> FALSE
TInit == fr = <<>> /\ i = 1
TNext == i <= Len(Trace) /\ Step /\ i' = i + 1
TSpec == TInit /\ [][TNext]_tv
TraceAccepted == LET k == TLCGet("stats").diameter IN IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", k>>, FALSE)
===============================================================================
