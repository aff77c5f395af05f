----------------------------- MODULE TraceDetManip -----------------------------
EXTENDS DetManip, Json, IOUtils
VARIABLES l, cplx
Trace == ndJsonDeserialize(IOEnv.TRACE)
Is(e) == Trace[l].e = e
ev == Trace[l]
\* r = a/b for a rational r = <<p, q>> or a complex one <<p, q, p', q'>>; the denominator b is made real first
Den(b) == IF cplx THEN Norm2(b) ELSE b[1]
Num(a, b) == IF cplx THEN Cx(a, Conj(b)) ELSE a
IsRatio(r, a, b) == r[2] # 0 /\ r[1] * Den(b) = Num(a, b)[1] * r[2] /\ (cplx => r[4] # 0 /\ r[3] * Den(b) = Num(a, b)[2] * r[4])
IsValue(r, a) == IsRatio(r, a, One)
\* the entry times Den(det): Gaussian integers
Whole(r, D) == r[2] # 0 /\ (r[1] * Den(D)) % r[2] = 0 /\ (cplx => r[4] # 0 /\ (r[3] * Den(D)) % r[4] = 0)
Entry(r, D) == <<(r[1] * Den(D)) \div r[2], IF cplx THEN (r[3] * Den(D)) \div r[4] ELSE 0>>
RECURSIVE Dot(_, _, _, _, _)
Dot(M, C, i, j, k) == IF k = 0 THEN Zero ELSE LET e == Dot(M, C, i, j, k - 1) c == Cx(M[i][k], C[k][j]) IN <<e[1] + c[1], e[2] + c[2]>>
At(s, n, i, j) == s[(i - 1) * n + j]
Seen(o) ==
  LET n == Len(o.xs) D == Det(o) M == Mat(o.xs, o.ys) IN
  /\ ev.n = n /\ ev.x = o.xs /\ ev.y = o.ys /\ ev.gx = o.xs /\ ev.gy = o.ys /\ ev.same /\ ev.shape
  /\ ev.th = o.th /\ ev.nb = o.nb /\ ev.pw = o.pw
  /\ \A i, j \in 1..n : IsValue(At(ev.mat, n, i, j), M[i][j]) /\ Whole(At(ev.inv, n, i, j), D)
  /\ LET C == TLCEval([i \in 1..n |-> [j \in 1..n |-> Entry(At(ev.inv, n, i, j), D)]]) IN
     \A i, j \in 1..n : Dot(M, C, i, j, n) = (IF i = j THEN <<Den(D), 0>> ELSE Zero)
  /\ LET Want == {<<o.xs[j], o.ys[i]>> \o At(ev.inv, n, i, j) : i, j \in 1..n} IN
     /\ {ev.each[i] : i \in 1..Len(ev.each)} = Want /\ Len(ev.each) = n * n
     /\ {ev.internal[i] : i \in 1..Len(ev.internal)} = Want
TrialRatio(o, t, r) == IsRatio(r, TrialDet(o, t), Det(o))
Ok ==
  \/ Is("Reset") /\ F' = ev.F /\ cplx' = ev.cplx /\ d' = [i \in {} |-> 0]
  \/ UNCHANGED cplx /\
     \/ Is("New") /\ IF Len(ev.x) = Len(ev.y) THEN ev.ok /\ d' = [i \in DOMAIN d \cup {ev.id} |-> IF i = ev.id THEN [Fresh(ev.x, ev.y) EXCEPT !.pw = ev.pw] ELSE d[i]] /\ UNCHANGED F
                                           ELSE ~ ev.ok /\ UNCHANGED vars
     \/ Is("Try") /\ Try(ev.id, ev.t) /\ TrialRatio(d[ev.id], ev.t, ev.r)
     \/ Is("Do") /\ Do(ev.id, ev.t) /\ TrialRatio(d[ev.id], ev.t, ev.r)
     \/ Is("Ratio") /\ ~ Pending(d[ev.id]) /\ Valid(d[ev.id], ev.t) /\ TrialRatio(d[ev.id], ev.t, ev.r) /\ UNCHANGED vars
     \/ Is("Refused") /\ Refused(ev.id, ev.t)
     \/ Is("Complete") /\ Complete(ev.id)
     \/ Is("Reject") /\ Reject(ev.id)
     \/ Is("SwapRow") /\ SwapRow(ev.id, ev.i, ev.j)
     \/ Is("SwapCol") /\ SwapCol(ev.id, ev.i, ev.j)
     \/ Is("Roll") /\ Roll(ev.id, ev.way) /\ ev.s = RollSign(Len(d[ev.id].xs), ev.way)
     \/ Is("Clear") /\ Clear(ev.id)
     \/ Is("Reserve") /\ UNCHANGED vars
     \/ Is("Regenerate") /\ UNCHANGED vars /\ ev.ok = Given(ev.id)
     \/ Is("Det") /\ UNCHANGED vars /\ ev.ok = Given(ev.id) /\ (ev.ok => IsValue(ev.v, Det(d[ev.id])))
     \/ Is("Threshold") /\ Threshold(ev.id, ev.n)
     \/ Is("Before") /\ Before(ev.id, ev.n)
     \/ Is("Precision") /\ Precision(ev.id, ev.n)
     \/ Is("Copy") /\ Copy(ev.id, ev.j)
     \/ Is("Move") /\ Move(ev.id, ev.j)
     \/ Is("Swap") /\ SwapObj(ev.id, ev.j)
     \/ Is("Load") /\ Load(ev.id, ev.j, ev.pw)
     \/ Is("Obs") /\ UNCHANGED vars /\ Seen(d[ev.id])
TInit == l = 1 /\ d = [i \in {} |-> 0] /\ F = <<>> /\ cplx = FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == TInit /\ [][TNext]_<<vars, l, cplx>>
TraceAccepted == LET k == TLCGet("stats").diameter IN IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", k>>, FALSE)
===============================================================================
