----------------------------- MODULE TraceExtract -----------------------------
(* Coefficients read off an operator: h_ij, U_ij, U_ijkl, blocks; all numbers times 4. *)
EXTENDS Hamiltonians, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
ev == Trace[i]
Oper(ts) == SumOver(1..Len(ts), LAMBDA k : Times(<<ts[k][2], ts[k][3]>>, NormalOrder(ts[k][1])))
Part(F, ok(_)) == [m \in {x \in DOMAIN F : ok(x)} |-> F[m]]
\* the words a coefficient can be read from
IsH(m) == Len(m) = 2 /\ m[1] > 0 /\ m[2] < 0
IsU4(m) == Len(m) = 4 /\ m[1] > 0 /\ m[2] > 0 /\ m[3] < 0 /\ m[4] < 0
IsU2(m) == IsU4(m) /\ {m[1], m[2]} = {-m[3], -m[4]}
Half(F) == [m \in DOMAIN F |-> <<F[m][1] \div 2, F[m][2] \div 2>>]
\* a table: one entry per key, none zero
Proper(t) == (\A a, b \in DOMAIN t : t[a][1] = t[b][1] => a = b) /\ \A a \in DOMAIN t : <<t[a][2], t[a][3]>> # Zero
Entry(t, k) == IF \E a \in DOMAIN t : t[a][1] = k THEN LET a == CHOOSE b \in DOMAIN t : t[b][1] = k IN <<t[a][2], t[a][3]>> ELSE Zero
Result(F, ok(_), ign, thrown, t, from(_)) ==
  LET good == \A m \in DOMAIN F : ok(m) IN
  IF good \/ ign THEN ~thrown /\ Proper(t) /\ from(t) = Part(F, ok) ELSE thrown
\* U_ij = U_ji; U_ijkl changes sign under i <-> j and under k <-> l
Sym2(t) == \A a \in DOMAIN t : Entry(t, <<t[a][1][2], t[a][1][1]>>) = <<t[a][2], t[a][3]>>
Sym4(t) == \A a \in DOMAIN t : LET k == t[a][1] v == <<-t[a][2], -t[a][3]>> IN Entry(t, <<k[2], k[1], k[3], k[4]>>) = v /\ Entry(t, <<k[1], k[2], k[4], k[3]>>) = v
From2(t) == Half(FromU2(t))
From4(t) == Half(FromU4(t))
ExtractOk == LET F == TLCEval(Oper(ev.src)) IN
  /\ Result(F, IsH, ev.ign, ev.th, ev.h, FromH) /\ Result(F, IsU2, ev.ign, ev.t2, ev.u2, From2) /\ Result(F, IsU4, ev.ign, ev.t4, ev.u4, From4)
  /\ Sym2(ev.u2) /\ Sym4(ev.u4)
  /\ (ev.dh <=> \E m \in DOMAIN F : ~IsH(m)) /\ (ev.d2 <=> \E m \in DOMAIN F : ~IsU2(m)) /\ (ev.d4 <=> \E m \in DOMAIN F : ~IsU4(m))
FilterOk == LET F == TLCEval(Oper(ev.src)) IN
  /\ Oper(ev.quad) = Part(F, LAMBDA m : Len(m) = 2) /\ Oper(ev.quart) = Part(F, LAMBDA m : Len(m) = 4) /\ Oper(ev.len) = Part(F, LAMBDA m : Len(m) = ev.k)
\* the element at position (p_1, ..., p_r) of the array is the entry of the table for the modes in these positions
RECURSIVE Key(_, _, _)
Key(q, r, n) == IF r = 0 THEN <<>> ELSE Append(Key(q \div n, r - 1, n), ev.order[(q % n) + 1])
MatrixOk ==
  LET n == Len(ev.order) r == IF ev.w = "u4" THEN 4 ELSE 2
      modes == {ev.order[k] : k \in 1..n}
      inside == \A a \in DOMAIN ev.d : \A j \in 1..r : ev.d[a][1][j] \in modes
  IN IF ~inside THEN ev.thrown
     ELSE /\ ~ev.thrown /\ ev.shape = [k \in 1..r |-> n] /\ Len(ev.flat) = n ^ r /\ (ev.cx <=> ~ev.realT)
          /\ \A q \in 1..(n ^ r) : ev.flat[q] = Entry(ev.d, Key(q - 1, r, n))
BlocksOk ==
  LET F == TLCEval(Oper(ev.src))
      InBlock(m) == IsH(m) /\ \E b \in DOMAIN ev.gm : m[1] \in ToSet(ev.gm[b]) /\ -m[2] \in ToSet(ev.gm[b])
      good == \A m \in DOMAIN F : InBlock(m)
  IN /\ (ev.bd <=> ~good)
     /\ IF good \/ ev.ign
        THEN /\ ~ev.thrown /\ Len(ev.M) = Len(ev.gm)
             /\ \A b \in DOMAIN ev.gm : LET n == Len(ev.gm[b]) IN /\ Len(ev.M[b]) = n * n
                  /\ \A p, q \in 1..n : ev.M[b][(p - 1) * n + q] = (LET w == <<ev.gm[b][p], -ev.gm[b][q]>> IN IF w \in DOMAIN F THEN F[w] ELSE Zero)
             /\ Oper(ev.back) = Part(F, InBlock)
        ELSE ev.thrown
Step == CASE ev.e = "Reset" -> TRUE
          [] ev.e = "Extract" -> ExtractOk
          [] ev.e = "Filter" -> FilterOk
          [] ev.e = "Matrix" -> MatrixOk
          [] ev.e = "Blocks" -> BlocksOk
          [] OTHER -> FALSE
TInit == i = 1
TNext == i <= Len(Trace) /\ Step /\ i' = i + 1
TSpec == TInit /\ [][TNext]_i
TraceAccepted == LET k == TLCGet("stats").diameter IN IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", k>>, FALSE)
===============================================================================
