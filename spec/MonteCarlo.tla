----------------------------- MODULE MonteCarlo -----------------------------
(* The Monte Carlo engine as seen by its user: what the callbacks of moves, measures and the stop function may observe, and what
   the calls of the engine return.  Ratios, draws and selection intervals are in units of 2^-24 (One), phases of signs are
   multiples of 90 degrees modulo 4, acceptance rates are in units of 2^-20.

   Each action is one observable event with its parameters; the trace specification feeds recorded events to the very same
   actions which the bounded model explores.                                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS One,      \* the integer standing for 1.0 in draws and ratios
          RateOne,  \* the integer standing for 1.0 in reported acceptance rates
          ChkSel,   \* decide which move a draw selects
          ChkAcc,   \* decide acceptance and the running sign
          ChkStat,  \* decide acceptance rates
          ChkCtl    \* decide return status and counters

VARIABLES
  conf,   \* [draws, tree, cplx, rethrow]: the stream of uniform numbers and the (nested) moves
  pc,     \* control point: idle, step, decide, duty, aux, meas, poll, end
  run,    \* the current run: [n, len, meas, wa (still to accumulate), na, err, fin]
  k, nc,  \* steps done in the cycle, cycles done in the run
  d,      \* draws consumed
  cur,    \* the proposed move: [id, r, ph]
  sign,   \* running phase
  cid,    \* configurations generated
  ncyc,   \* <<lo, hi>>: cycles done over all runs (an interrupted cycle may or may not be counted)
  nmeas,  \* set of admissible values of the number of measurements of the last run
  stat,   \* [p, a]: functions from move ids to numbers of proposals/acceptances of this run; ok: no failure happened
  rates,  \* empty before collection
  reg,    \* registered measures: function name -> [rep, plain, cnt]
  auxs,   \* registered auxiliary measures, in order
  duty,   \* is an end-of-cycle duty set?
  todo,   \* measures / auxiliary measures / collections still to be called
  rep,    \* measures which reported in this cycle
  sig,    \* a signal is pending
  cut,    \* the current cycle was interrupted by a signal
  file    \* what was stored last

vars == <<conf, pc, run, k, nc, d, cur, sign, cid, ncyc, nmeas, stat, rates, reg, auxs, duty, todo, rep, sig, cut, file>>

NoRun == [n |-> 0, len |-> 1, meas |-> FALSE, wa |-> FALSE, na |-> 0, err |-> FALSE, fin |-> FALSE, status |-> {}]
NoCur == [id |-> 0, r |-> 0, ph |-> 0]
EmptyFcn == [x \in {} |-> 0]

-----------------------------------------------------------------------------
(* Moves: a sequence of nodes [w, id] or [w, id, sub], sub being again such a sequence. *)
IsSet(node) == "sub" \in DOMAIN node
RECURSIVE Leaves(_)
Leaves(tree) == UNION { IF IsSet(tree[i]) THEN Leaves(tree[i].sub) ELSE {tree[i].id} : i \in DOMAIN tree }
RECURSIVE DepthOf(_, _)
DepthOf(tree, id) ==  \* number of selections that lead to the leaf
  LET i == CHOOSE i \in DOMAIN tree : IF IsSet(tree[i]) THEN id \in Leaves(tree[i].sub) ELSE tree[i].id = id
  IN IF IsSet(tree[i]) THEN 1 + DepthOf(tree[i].sub, id) ELSE 1
RECURSIVE Cum(_, _)
Cum(tree, i) == IF i = 0 THEN 0 ELSE tree[i].w + Cum(tree, i - 1)
(* does the draw u select the i-th node?  Draws are truncated to the unit, so that an interval boundary that is not a multiple
   of the unit leaves one value undecided *)
Pow2(x) == x \in {1, 2, 4, 8, 16, 32, 64}
Selects(tree, u, i) ==
  LET W == Cum(tree, Len(tree))
      lo == Cum(tree, i - 1) * One
      hi == Cum(tree, i) * One
  IN /\ tree[i].w > 0
     /\ IF Pow2(W) THEN u * W >= lo /\ u * W < hi
        ELSE u * W + W >= lo /\ u * W - 1 < hi
RECURSIVE Selected(_, _, _, _)
Selected(tree, dr, pos, id) ==  \* the draws after position pos select the leaf id
  /\ pos < Len(dr)
  /\ \E i \in DOMAIN tree : /\ Selects(tree, dr[pos + 1], i)
                            /\ IF IsSet(tree[i]) THEN Selected(tree[i].sub, dr, pos + 1, id) ELSE tree[i].id = id
RECURSIVE Nodes(_)
Nodes(tree) == UNION { {tree[i]} \cup (IF IsSet(tree[i]) THEN Nodes(tree[i].sub) ELSE {}) : i \in DOMAIN tree }
NodeLeaves(node) == IF IsSet(node) THEN Leaves(node.sub) ELSE {node.id}
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Rate(a, p) == IF p = 0 THEN -2 ELSE (a * RateOne) \div p
NodeName(node) == (IF IsSet(node) THEN "set" ELSE "mv") \o ToString(node.id)

Zero(tree) == [x \in Leaves(tree) |-> 0]
ClearStat == stat' = [p |-> Zero(conf.tree), a |-> Zero(conf.tree), ok |-> TRUE]

-----------------------------------------------------------------------------
Fresh(c) ==
  /\ conf' = c /\ pc' = "idle" /\ run' = NoRun /\ k' = 0 /\ nc' = 0 /\ d' = 0 /\ cur' = NoCur /\ sign' = 0 /\ cid' = 0
  /\ ncyc' = <<0, 0>> /\ nmeas' = {0} /\ stat' = [p |-> Zero(c.tree), a |-> Zero(c.tree), ok |-> TRUE] /\ rates' = <<>>
  /\ reg' = EmptyFcn /\ auxs' = <<>> /\ duty' = FALSE /\ todo' = <<>> /\ rep' = {} /\ sig' = FALSE /\ cut' = FALSE

Reset(c) == Fresh(c) /\ file' = [none |-> TRUE]
NewObject == pc = "idle" /\ Fresh(conf) /\ UNCHANGED file

AddMeasure(n, r, pl, ok) ==
  /\ pc = "idle" /\ ok = (n \notin DOMAIN reg)
  /\ reg' = IF ok THEN [x \in DOMAIN reg \cup {n} |-> IF x = n THEN [rep |-> r, plain |-> pl, cnt |-> 0] ELSE reg[x]] ELSE reg
  /\ UNCHANGED <<conf, pc, run, k, nc, d, cur, sign, cid, ncyc, nmeas, stat, rates, auxs, duty, todo, rep, sig, cut, file>>
RmMeasure(n) ==
  /\ pc = "idle" /\ n \in DOMAIN reg
  /\ reg' = [x \in DOMAIN reg \ {n} |-> reg[x]]
  /\ UNCHANGED <<conf, pc, run, k, nc, d, cur, sign, cid, ncyc, nmeas, stat, rates, auxs, duty, todo, rep, sig, cut, file>>
ClearMeasures ==
  /\ pc = "idle" /\ reg' = EmptyFcn
  /\ UNCHANGED <<conf, pc, run, k, nc, d, cur, sign, cid, ncyc, nmeas, stat, rates, auxs, duty, todo, rep, sig, cut, file>>
AddAux(x) ==
  /\ pc = "idle" /\ auxs' = Append(auxs, x)
  /\ UNCHANGED <<conf, pc, run, k, nc, d, cur, sign, cid, ncyc, nmeas, stat, rates, reg, duty, todo, rep, sig, cut, file>>
SetDuty(on) ==
  /\ pc = "idle" /\ duty' = on
  /\ UNCHANGED <<conf, pc, run, k, nc, d, cur, sign, cid, ncyc, nmeas, stat, rates, reg, auxs, todo, rep, sig, cut, file>>
DrawsAre(v, pos) == pos + Len(v) <= Len(conf.draws) /\ \A i \in DOMAIN v : v[i] = conf.draws[pos + i]
UserDraw(v) ==
  /\ pc = "idle" /\ DrawsAre(v, d) /\ d' = d + Len(v)
  /\ UNCHANGED <<conf, pc, run, k, nc, cur, sign, cid, ncyc, nmeas, stat, rates, reg, auxs, duty, todo, rep, sig, cut, file>>

-----------------------------------------------------------------------------
(* Start of a run of n cycles: n = 0 ends at once. *)
StartPhase(r) ==   \* r: the run record, with n the number of cycles of this phase
  /\ run' = r /\ nc' = 0 /\ k' = 0 /\ rates' = <<>> /\ ClearStat /\ cut' = FALSE /\ rep' = {} /\ todo' = <<>>
  /\ pc' = IF r.n = 0 THEN "end" ELSE "step"
AfterPhase(r) ==   \* what follows a completed phase
  IF r.wa THEN [r EXCEPT !.wa = FALSE, !.n = r.na, !.meas = TRUE, !.fin = FALSE] ELSE r

RunBegin(op, n, len, nw, meas, s0) ==
  /\ pc = "idle"
  /\ LET r0 == [n |-> IF op = "wa" THEN nw ELSE n, len |-> len, meas |-> IF op = "wa" THEN FALSE ELSE meas, wa |-> op = "wa",
                na |-> n, err |-> FALSE, fin |-> FALSE, status |-> {0}]
         r1 == IF r0.n = 0 THEN AfterPhase(r0) ELSE r0   \* an empty warm-up counts as completed
     IN StartPhase(r1) /\ nmeas' = IF r1.n = 0 /\ r0.n = 0 THEN nmeas \cup {0} ELSE {0}
  /\ sign' = IF s0 = -1 THEN sign ELSE s0
  /\ cur' = NoCur
  /\ UNCHANGED <<conf, d, cid, ncyc, reg, auxs, duty, sig, file>>

Signal == \* delivered to the process while a run is going on
  /\ pc # "idle" /\ sig' = TRUE
  /\ UNCHANGED <<conf, pc, run, k, nc, d, cur, sign, cid, ncyc, nmeas, stat, rates, reg, auxs, duty, todo, rep, cut, file>>

-----------------------------------------------------------------------------
(* Steps.  A pending signal interrupts the cycle before its next step, at the latest. *)
Bad(m, thr) == thr \/ m = "nan" \/ (m = "inf" /\ conf.cplx)
RatioOf(m, r) == IF m = "inf" THEN One ELSE r
Attempt(id, m, r, ph, extra, thr) ==
  /\ pc = "step" /\ k < run.len
  /\ id \in Leaves(conf.tree)
  /\ (ChkSel => Selected(conf.tree, conf.draws, d, id))
  /\ LET d1 == d + DepthOf(conf.tree, id)
     IN /\ (ChkAcc => DrawsAre(extra, d1))
        /\ d' = d1 + Len(extra)
  /\ stat' = [stat EXCEPT !.p[id] = @ + 1, !.ok = @ /\ ~Bad(m, thr)]
  /\ cur' = [id |-> id, r |-> RatioOf(m, r), ph |-> ph]
  /\ IF Bad(m, thr) THEN pc' = "poll" /\ run' = [run EXCEPT !.err = TRUE] ELSE pc' = "decide" /\ UNCHANGED run
  /\ UNCHANGED <<conf, k, nc, sign, cid, ncyc, nmeas, rates, reg, auxs, duty, todo, rep, sig, cut, file>>

Accepts == cur.r >= One \/ (d < Len(conf.draws) /\ conf.draws[d + 1] < cur.r)
NextStep(thr) ==
  /\ d' = d + 1
  /\ IF thr THEN /\ pc' = "poll" /\ run' = [run EXCEPT !.err = TRUE] /\ UNCHANGED <<k, cid, todo>>
     ELSE /\ k' = k + 1 /\ cid' = cid + 1 /\ UNCHANGED run
          /\ IF k + 1 < run.len THEN pc' = "step" /\ UNCHANGED todo
             ELSE IF duty THEN pc' = "duty" /\ UNCHANGED todo
             ELSE IF run.meas THEN pc' = "aux" /\ todo' = auxs
             ELSE pc' = "poll" /\ UNCHANGED todo
Accept(id, ph, thr) ==
  /\ pc = "decide" /\ id = cur.id
  /\ (ChkAcc => Accepts)
  /\ stat' = [stat EXCEPT !.a[id] = @ + 1, !.ok = @ /\ ~thr]
  /\ sign' = IF thr THEN sign ELSE (sign + cur.ph + ph) % 4
  /\ NextStep(thr)
  /\ UNCHANGED <<conf, nc, cur, ncyc, nmeas, rates, reg, auxs, duty, rep, sig, cut, file>>
Reject(id, thr) ==
  /\ pc = "decide" /\ id = cur.id
  /\ (ChkAcc => ~Accepts)
  /\ stat' = [stat EXCEPT !.ok = @ /\ ~thr]
  /\ NextStep(thr)
  /\ UNCHANGED <<conf, nc, cur, sign, ncyc, nmeas, rates, reg, auxs, duty, rep, sig, cut, file>>

-----------------------------------------------------------------------------
(* End of a cycle: duty, then one measurement (auxiliary measures in order, then every measure once), then the poll. *)
Fail(thr, ok) == IF thr THEN pc' = "poll" /\ run' = [run EXCEPT !.err = TRUE] /\ todo' = <<>> ELSE ok
Duty(thr) ==
  /\ pc = "duty"
  /\ Fail(thr, IF run.meas THEN pc' = "aux" /\ todo' = auxs /\ UNCHANGED run ELSE pc' = "poll" /\ UNCHANGED <<run, todo>>)
  /\ stat' = [stat EXCEPT !.ok = @ /\ ~thr]
  /\ UNCHANGED <<conf, k, nc, d, cur, sign, cid, ncyc, nmeas, rates, reg, auxs, duty, rep, sig, cut, file>>
Aux(x, thr) ==
  /\ pc = "aux" /\ todo # <<>> /\ x = Head(todo)
  /\ Fail(thr, pc' = "aux" /\ todo' = Tail(todo) /\ UNCHANGED run)
  /\ nmeas' = IF thr THEN UNION {{m, m + 1} : m \in nmeas} ELSE nmeas
  /\ UNCHANGED <<conf, k, nc, d, cur, sign, cid, ncyc, stat, rates, reg, auxs, duty, rep, sig, cut, file>>
Left == IF pc = "aux" /\ todo = <<>> THEN DOMAIN reg ELSE IF pc = "meas" THEN todo ELSE {}
Measure(n, s, thr) ==
  /\ (pc = "aux" /\ todo = <<>>) \/ pc = "meas"
  /\ n \in Left
  /\ (ChkAcc => s = sign)
  /\ reg' = [reg EXCEPT ![n].cnt = @ + 1]
  /\ IF thr THEN Fail(TRUE, FALSE) ELSE pc' = "meas" /\ todo' = Left \ {n} /\ UNCHANGED run
  /\ nmeas' = IF thr THEN UNION {{m, m + 1} : m \in nmeas} ELSE nmeas
  /\ UNCHANGED <<conf, k, nc, d, cur, sign, cid, ncyc, stat, rates, auxs, duty, rep, sig, cut, file>>

Measured == \/ pc = "meas" /\ todo = {}
            \/ pc = "aux" /\ todo = <<>> /\ DOMAIN reg = {}
Interrupted == pc = "step" /\ k < run.len /\ sig     \* the cycle is left early because of a signal
CycleOver == pc = "poll" \/ Measured \/ Interrupted

Reporting == {n \in DOMAIN reg : reg[n].rep}
Report(n) ==   \* a progress report may be printed at the end of a cycle; it covers all reporting measures once
  /\ CycleOver /\ run.meas /\ n \in Reporting \ rep
  /\ rep' = rep \cup {n}
  /\ UNCHANGED <<conf, pc, run, k, nc, d, cur, sign, cid, ncyc, nmeas, stat, rates, reg, auxs, duty, todo, sig, cut, file>>

(* The stop callback is polled once per cycle, after which the run goes on, ends, or (a completed warm-up) turns into the accumulation. *)
Poll(r) ==
  /\ CycleOver
  /\ rep \in {{}, Reporting} /\ rep' = {}
  /\ LET whole  == ~Interrupted /\ ~run.err   \* the cycle was completed
         last   == run.n > 0 /\ nc + 1 >= run.n
         fin    == last /\ whole
         stop   == r \/ sig \/ last \/ run.err
         status == IF fin THEN {0} ELSE IF sig /\ r THEN {1, 2} ELSE IF sig THEN {2} ELSE {1}
         nm     == IF Measured THEN {m + 1 : m \in nmeas} ELSE nmeas
     IN /\ ncyc' = <<ncyc[1] + (IF whole THEN 1 ELSE 0), ncyc[2] + 1>>
        /\ cut' = Interrupted
        /\ IF fin /\ run.wa
           THEN /\ nmeas' = {0} /\ nc' = 0 /\ k' = 0 /\ todo' = <<>> /\ rates' = <<>> /\ ClearStat
                /\ pc' = IF run.na = 0 THEN "end" ELSE "step"
                /\ run' = [AfterPhase(run) EXCEPT !.status = {0}]
                /\ sig' = FALSE   \* the end of the warm-up is the end of a signal capture
           ELSE /\ nmeas' = nm /\ nc' = nc + 1 /\ UNCHANGED <<sig, rates, stat>>
                /\ IF stop THEN pc' = "end" /\ run' = [run EXCEPT !.status = status, !.fin = fin] /\ UNCHANGED <<k, todo>>
                   ELSE pc' = "step" /\ k' = 0 /\ todo' = <<>> /\ UNCHANGED run
  /\ UNCHANGED <<conf, d, cur, sign, cid, reg, auxs, duty, file>>

RunEnd(st) ==
  /\ pc = "end" /\ ~run.err
  /\ (ChkCtl => st \in run.status)
  /\ pc' = "idle" /\ sig' = FALSE
  /\ UNCHANGED <<conf, run, k, nc, d, cur, sign, cid, ncyc, nmeas, stat, rates, reg, auxs, duty, todo, rep, cut, file>>
RunError ==
  /\ pc = "end" /\ run.err /\ conf.rethrow
  /\ pc' = "idle" /\ sig' = FALSE
  /\ UNCHANGED <<conf, run, k, nc, d, cur, sign, cid, ncyc, nmeas, stat, rates, reg, auxs, duty, todo, rep, cut, file>>
Aborted ==
  /\ run.err /\ ~conf.rethrow /\ pc = "poll"
  /\ pc' = "aborted"
  /\ UNCHANGED <<conf, run, k, nc, d, cur, sign, cid, ncyc, nmeas, stat, rates, reg, auxs, duty, todo, rep, sig, cut, file>>

-----------------------------------------------------------------------------
Get(pct, n, c) ==
  /\ pc = "idle"
  /\ (ChkCtl => /\ n >= ncyc[1] /\ n <= ncyc[2] /\ c = cid
                /\ (run.n > 0 /\ ~run.err /\ run.fin => pct = 100)
                /\ (run.n > 0 /\ ~run.err => pct = (100 * nc) \div run.n))
  /\ UNCHANGED vars

CollectBegin ==
  /\ pc = "idle" /\ pc' = "collect" /\ todo' = [m |-> DOMAIN reg, v |-> Leaves(conf.tree)]
  /\ UNCHANGED <<conf, run, k, nc, d, cur, sign, cid, ncyc, nmeas, stat, rates, reg, auxs, duty, rep, sig, cut, file>>
CollectM(n, cnt) ==
  /\ pc = "collect" /\ n \in todo.m
  /\ cnt = IF reg[n].plain THEN -1 ELSE reg[n].cnt
  /\ todo' = [todo EXCEPT !.m = @ \ {n}]
  /\ UNCHANGED <<conf, pc, run, k, nc, d, cur, sign, cid, ncyc, nmeas, stat, rates, reg, auxs, duty, rep, sig, cut, file>>
MoveCollect(id) ==
  /\ pc = "collect" /\ id \in todo.v
  /\ todo' = [todo EXCEPT !.v = @ \ {id}]
  /\ UNCHANGED <<conf, pc, run, k, nc, d, cur, sign, cid, ncyc, nmeas, stat, rates, reg, auxs, duty, rep, sig, cut, file>>
Near(x, y) == x - y \in {-1, 0, 1}
RatesMatch(rt, st) ==   \* rt: sequence of <<name, rate>>
  \A node \in Nodes(conf.tree) :
     LET S == NodeLeaves(node)
         e == Rate(SumOver(st.a, S), SumOver(st.p, S))
     IN \E i \in DOMAIN rt : rt[i][1] = NodeName(node) /\ IF e < 0 THEN rt[i][2] = e ELSE Near(rt[i][2], e)
CollectEnd(rt) ==
  /\ pc = "collect" /\ todo.m = {} /\ todo.v = {}
  /\ (ChkStat /\ stat.ok => Len(rt) = Cardinality(Nodes(conf.tree)) /\ RatesMatch(rt, stat))
  /\ pc' = "idle" /\ rates' = rt /\ todo' = <<>>
  /\ UNCHANGED <<conf, run, k, nc, d, cur, sign, cid, ncyc, nmeas, stat, reg, auxs, duty, rep, sig, cut, file>>
Rates(rt) ==
  /\ pc = "idle"
  /\ (ChkStat => IF rates = <<>> THEN \A i \in DOMAIN rt : rt[i][2] = -1 ELSE rt = rates)
  /\ UNCHANGED vars
Times(still, sum, neg) == pc = "idle" /\ (ChkCtl => still /\ sum /\ ~neg) /\ UNCHANGED vars

-----------------------------------------------------------------------------
SetOf(s) == {s[i] : i \in DOMAIN s}
Save(n, nm, s, ms, mv) ==
  /\ pc = "idle"
  /\ (ChkCtl => n >= ncyc[1] /\ n <= ncyc[2] /\ nm \in nmeas)
  /\ (ChkAcc => s = sign)
  /\ SetOf(ms) = {x \in DOMAIN reg : ~reg[x].plain} /\ Len(ms) = Cardinality(SetOf(ms))
  /\ SetOf(mv) = {NodeName(conf.tree[i]) : i \in DOMAIN conf.tree}
  /\ file' = [ncyc |-> n, nmeas |-> nm, s |-> s, cnt |-> [x \in SetOf(ms) |-> reg[x].cnt]]
  /\ UNCHANGED <<conf, pc, run, k, nc, d, cur, sign, cid, ncyc, nmeas, stat, rates, reg, auxs, duty, todo, rep, sig, cut>>
LoadBegin ==
  /\ pc = "idle" /\ pc' = "load" /\ todo' = [m |-> {x \in DOMAIN reg : ~reg[x].plain}, v |-> Leaves(conf.tree)]
  /\ UNCHANGED <<conf, run, k, nc, d, cur, sign, cid, ncyc, nmeas, stat, rates, reg, auxs, duty, rep, sig, cut, file>>
MeasLoad(n, cnt) ==
  /\ pc = "load" /\ n \in todo.m /\ cnt = file.cnt[n]
  /\ todo' = [todo EXCEPT !.m = @ \ {n}] /\ reg' = [reg EXCEPT ![n].cnt = cnt]
  /\ UNCHANGED <<conf, pc, run, k, nc, d, cur, sign, cid, ncyc, nmeas, stat, rates, auxs, duty, rep, sig, cut, file>>
MoveLoad(id, v) ==
  /\ pc = "load" /\ id \in todo.v /\ v = id
  /\ todo' = [todo EXCEPT !.v = @ \ {id}]
  /\ UNCHANGED <<conf, pc, run, k, nc, d, cur, sign, cid, ncyc, nmeas, stat, rates, reg, auxs, duty, rep, sig, cut, file>>
LoadEnd ==
  /\ pc = "load" /\ todo.m = {} /\ todo.v = {}
  /\ pc' = "idle" /\ todo' = <<>> /\ sign' = file.s /\ ncyc' = <<file.ncyc, file.ncyc>> /\ nmeas' = {file.nmeas}
  /\ UNCHANGED <<conf, run, k, nc, d, cur, cid, stat, rates, reg, auxs, duty, rep, sig, cut, file>>

(* Several ranks: every rank reports, for each move, acceptances over proposals summed over the ranks. *)
Multi(counts, rts, bad) ==
  /\ pc = "idle"
  /\ \A r \in DOMAIN bad : bad[r] = 0
  /\ \A r \in DOMAIN counts : \A i \in DOMAIN counts[r] : counts[r][i][1] \in Leaves(conf.tree)
  /\ LET One1(r, id, j) == IF \E i \in DOMAIN counts[r] : counts[r][i][1] = id
                           THEN counts[r][CHOOSE i \in DOMAIN counts[r] : counts[r][i][1] = id][2][j] ELSE 0
         Tot(id, j) == SumOver([r \in DOMAIN counts |-> One1(r, id, j)], DOMAIN counts)
         st == [p |-> [id \in Leaves(conf.tree) |-> Tot(id, 1)], a |-> [id \in Leaves(conf.tree) |-> Tot(id, 2)]]
     IN \A r \in DOMAIN rts : RatesMatch(rts[r], st)
  /\ UNCHANGED vars
=============================================================================
