------------------------------ MODULE TraceStats ------------------------------
EXTENDS SampleStats, FiniteSetsExt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, w
tv == <<acc, i, w>>
ev == Trace[i]
All(d, c) == LET f == FlattenSeq(d) IN [k \in 1..Len(f) |-> f[k][c]]
IsNum(v, T(_)) == Len(v) = w /\ \A c \in 1..w : v[c] = T(c)
Zim(x) == x \o RZero
Y(c) == IF ev.f \in {"mul", "div"} THEN All(ev.y, c) ELSE All(ev.x, c)
\* level l of the logarithmic bins over all ranks
Has(d, l, lmax) == {r \in 1..Len(d) : l < Levels(Len(d[r]), lmax)}
MaxLevels(d, lmax) == Max({Levels(Len(d[r]), lmax) : r \in 1..Len(d)})
SumsAt(d, l, c, k) == FlattenSeq([r \in 1..Len(d) |-> IF r \in Has(d, l, ev.lmax) THEN BlockSums(d[r], l, c, k) ELSE <<>>])
LogOk(r) == LET n == MaxLevels(ev.x, ev.lmax) IN
  /\ Len(r.e) = n /\ Len(r.c) = n
  /\ \A l \in 0..(n - 1) : /\ r.c[l + 1] = Len(SumsAt(ev.x, l, 1, 1))
                           /\ \A c \in 1..w : r.e[l + 1][c] = Zim(SqErr(SumsAt(ev.x, l, c, 1), SumsAt(ev.x, l, c, 2), Pow2(l)))
Ok(r) ==
  CASE ev.op = "mean" -> IsNum(r.m, LAMBDA c : Mean(All(ev.x, c)))
    [] ev.op = "err" -> IsNum(r.m, LAMBDA c : Mean(All(ev.x, c))) /\ IsNum(r.e, LAMBDA c : Zim(StdErr2(All(ev.x, c))))
    [] ev.op = "jack" -> LET J == TLCEval([c \in 1..w |-> Jack(ev.f, All(ev.x, c), Y(c))]) IN
         /\ IsNum(r.a, LAMBDA c : J[c].a) /\ IsNum(r.m, LAMBDA c : J[c].m) /\ IsNum(r.f, LAMBDA c : J[c].f) /\ IsNum(r.e, LAMBDA c : Zim(J[c].e))
    [] ev.op = "log" -> LogOk(r)
Step ==
  CASE ev.e = "Reset" -> w' = ev.w /\ UNCHANGED acc
    [] ev.e = "Stat" -> Len(ev.r) = Len(ev.x) /\ (\A k \in 1..Len(ev.r) : Ok(ev.r[k])) /\ UNCHANGED <<acc, w>>
    [] ev.e = "Tau" -> ev.t = RDivI(RAdd(R(ev.a * ev.a, ev.b * ev.b), <<-1, 1>>), 2) /\ UNCHANGED <<acc, w>>
    [] OTHER -> FALSE
TInit == acc = <<>> /\ i = 1 /\ w = 1
TNext == i <= Len(Trace) /\ Step /\ i' = i + 1
TSpec == TInit /\ [][TNext]_tv
TraceAccepted == LET k == TLCGet("stats").diameter IN IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", k>>, FALSE)
===============================================================================
