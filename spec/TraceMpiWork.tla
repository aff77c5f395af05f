----------------------------- MODULE TraceMpiWork -----------------------------
EXTENDS MpiWork, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, ready, cnt
ev == Trace[i]
vv == <<w, i, ready, cnt>>
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
MaxOf(s) == CHOOSE m \in {s[k] : k \in 1..Len(s)} : \A k \in 1..Len(s) : s[k] <= m
\* every rank sees the reduced and broadcast values, and its own place
ShareOk ==
  LET n == ev.size IN Len(ev.out) = n /\ \A r \in 1..n : LET o == ev.out[r] IN
  /\ o.rank = r - 1 /\ o.size = n /\ o.master = (r = 1)
  /\ o.b = ev.v[ev.root + 1] /\ o.b0 = ev.v[1]
  /\ o.s = SumTo(ev.v, n) /\ o.c = o.s /\ o.o = o.s /\ o.a = <<o.s, 2 * o.s>> /\ o.m = MaxOf(ev.v)
  /\ o.ring = (LET p == IF r = 1 THEN n ELSE r - 1 IN <<ev.v[p], p - 1>>)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Ints(n) == [k \in 1..n |-> k - 1]
CutOk ==
  /\ Len(ev.parts) = ev.size /\ Slices(ev.lo, ev.lo + ev.n - 1, ev.parts)
  /\ Cat(ev.ones) = Ints(ev.n) /\ Cat(ev.rows) = [k \in 1..ev.n |-> 2 * (k - 1) + 1]
  /\ \A r \in 1..ev.size : Len(ev.ones[r]) = Size(ev.parts[r]) /\ Len(ev.rows[r]) = Size(ev.parts[r])
RECURSIVE Texts(_, _)
Texts(cs, err) == IF cs = <<>> THEN <<>> ELSE (IF Head(cs).err = err /\ Head(cs).level <= 1 THEN [k \in 1..Len(Head(cs).texts) |-> <<0, Head(cs).texts[k]>>] ELSE <<>>) \o Texts(Tail(cs), err)
\* results of the stack: value and node of every item, in the order in which they were treated
Res == [k \in 1..Len(w.done) |-> <<w.done[k][1], w.done[k][2], F(w.done[k][2])>>]
Step ==
  CASE ev.e = "Reset" -> w' = NewLoop(1, <<>>) /\ ready' = {} /\ cnt' = 0
    [] ev.e = "Begin" -> Begin(ev.size, ev.items) /\ UNCHANGED <<ready, cnt>>
    [] ev.e = "Take" -> Take(ev.x) /\ UNCHANGED <<ready, cnt>>
    [] ev.e = "Start" -> (IF ev.n = 0 /\ Waiting(ev.x) = 0 THEN StartEarly(ev.x) ELSE Start(ev.n, ev.x)) /\ UNCHANGED <<ready, cnt>>
    [] ev.e = "Finish" -> Finish(ev.n, ev.x) /\ UNCHANGED <<ready, cnt>>
    [] ev.e = "Treat" -> Treat(ev.n, ev.x, ev.v, ev.more) /\ UNCHANGED <<ready, cnt>>
    [] ev.e = "Leave" -> Leave(ev.n) /\ UNCHANGED <<ready, cnt>>
    [] ev.e = "Over" -> Over /\ (ev.got => ev.res = Res) /\ ev.others = 0 /\ UNCHANGED <<ready, cnt>>
    [] ev.e = "Cut" -> CutOk /\ UNCHANGED <<w, ready, cnt>>
    [] ev.e = "Share" -> ShareOk /\ ready = 0..(ev.size-1) /\ ready' = {} /\ cnt' = 0 /\ UNCHANGED w
    [] ev.e = "Report" -> ev.out = Texts(ev.calls, FALSE) /\ ev.err = Texts(ev.calls, TRUE) /\ UNCHANGED <<w, ready, cnt>>
    [] ev.e = "Hosts" -> ev.lines = ev.size /\ UNCHANGED <<w, ready, cnt>>
    [] ev.e = "Pick" -> ev.which = (IF ev.env > 0 THEN "mpi_mpi4py" ELSE "mpi_nompi") /\ UNCHANGED <<w, ready, cnt>>
    \* nobody passes the barrier before everybody is there
    [] ev.e = "Enter" -> cnt' = cnt + 1 /\ UNCHANGED <<w, ready>>
    [] ev.e = "Ready" -> ready' = ready \cup {ev.r} /\ UNCHANGED <<w, cnt>>
    [] ev.e = "Passed" -> Cardinality(ready) >= ev.size /\ UNCHANGED <<w, ready, cnt>>
    [] OTHER -> FALSE
TInit == w = NewLoop(1, <<>>) /\ i = 1 /\ ready = {} /\ cnt = 0
TNext == i <= Len(Trace) /\ Step /\ i' = i + 1
TSpec == TInit /\ [][TNext]_vv
TraceAccepted == LET k == TLCGet("stats").diameter IN IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", k>>, FALSE)
===============================================================================
