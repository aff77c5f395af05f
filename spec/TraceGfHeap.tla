----------------------------- MODULE TraceGfHeap ------------------------------
EXTENDS GfHeap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, S
ev == Trace[i]
Names == {"a", "b", "c", "d", "e", "P", "Q", "R"}
Empty == [heap |-> <<>>, regs |-> [r \in Names |-> [t |-> "none"]]]
(* the side conditions under which an operation was generated, and what it reports *)
Extra(op) == CASE op.o = "getpt" -> ev.val = PtVal(S, op)
               [] op.o = "semi" -> SemiOk(ValOf(S.heap, S.regs[op.x]), op)
               [] op.o = "flat" -> LET x == ValOf(S.heap, S.regs[op.x]) IN
                    /\ ev.val = FlatVal(x, op)
                    /\ \A k \in 1..Len(x.d) : ev.branch[k] =
                         LET z == x.mesh[1].v[((k - 1) \div TSize(x.shape)) + 1] IN
                         IF ~Diag(x.shape, (k - 1) % TSize(x.shape)) THEN 0
                         ELSE IF z[2][1] # 0 THEN (IF z[2][1] > 0 THEN -1 ELSE 1)
                         ELSE IF RLess(z[1], op.D) /\ RLess(RNeg(op.D), z[1]) THEN -1 ELSE 0
               [] op.o = "expt" -> (* one level of energy l: -exp(-l tau) / (1 + exp(-l beta)), determined by its logarithm and by G(0) + G(beta) = -1 *)
                    LET v == S.regs[op.x].mesh[1].v IN
                    /\ ev.lg = [k \in 1..Len(v) |-> <<RMul(op.l, v[k][1]), RZero>>]
                    /\ ev.sum = CI(-1, 0) /\ ev.unit
               [] OTHER -> TRUE
Next1 ==
  IF ev.e = "Reset" THEN S' = Empty
  ELSE \E r \in {TLCEval(Step(S, ev.op))} :
         /\ IF ev.ok = (r.res = "ok") THEN TRUE ELSE Print(<<"EXPECTED", r.res>>, FALSE)
         /\ ev.ok => Extra(ev.op)
         /\ \A n \in Names : LET o == Obs(r.S, r.S.regs[n]) IN IF ev.post[n] = o THEN TRUE ELSE Print(<<"EXPECTED", n, o>>, FALSE)
         /\ S' = r.S
TInit == i = 1 /\ S = Empty
TNext == i <= Len(Trace) /\ Next1 /\ i' = i + 1
TSpec == TInit /\ [][TNext]_<<i, S>>
TraceAccepted == LET k == TLCGet("stats").diameter IN IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", k>>, FALSE)
===============================================================================
