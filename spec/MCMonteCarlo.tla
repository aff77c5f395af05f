---------------------------- MODULE MCMonteCarlo ----------------------------
(* Bounded exploration of MonteCarlo with an arbitrary environment: any ratios, any acceptance draws, any stop polls, signals and
   failures.  The ghost variable g records what happened, independently of the bookkeeping of the engine. *)
EXTENDS MonteCarlo, Json
CONSTANTS MaxRuns, MaxN, MaxLen, Cplx, Faults,
          Rich   \* explore more set-ups and ratios
VARIABLES g, opj

Tree == <<[w |-> 1, id |-> 1], [w |-> 1, id |-> 2, sub |-> <<[w |-> 1, id |-> 3]>>]>>
Bits == [1 .. 2 * MaxN * MaxLen + 2 -> {1, 3}]
\* every draw is either below or above the intermediate ratio 2
Init ==
  /\ conf \in [draws : {[i \in 1..40 |-> IF i % 2 = 0 THEN 1 ELSE 3]}, tree : {Tree}, cplx : {Cplx}, rethrow : BOOLEAN]
  /\ pc = "idle" /\ run = NoRun /\ k = 0 /\ nc = 0 /\ d = 0
  /\ cur = NoCur /\ sign = 0 /\ cid = 0 /\ ncyc = <<0, 0>> /\ nmeas = {0} /\ stat = [p |-> Zero(Tree), a |-> Zero(Tree), ok |-> TRUE] /\ rates = <<>>
  /\ reg = EmptyFcn /\ auxs = <<>> /\ duty = FALSE /\ todo = <<>> /\ rep = {} /\ sig = FALSE /\ cut = FALSE /\ file = [none |-> TRUE]
  /\ g = [runs |-> 0, att |-> 0, acc |-> 0, rej |-> 0, bad |-> 0, ph |-> 0, steps |-> 0, meas |-> 0, duties |-> 0, polls |-> 0, wsteps |-> 0, wmeas |-> 0, st |-> -1, sigd |-> FALSE, stopped |-> FALSE]
  /\ opj = "{}"

Ev(r) == opj' = ToJson(r)
G(f) == g' = f
Setup ==
  /\ g.runs = 0
  /\ \/ \E n \in {"m1"} \cup (IF Rich THEN {"m2"} ELSE {}) : AddMeasure(n, n = "m1", FALSE, n \notin DOMAIN reg) /\ Ev([e |-> "AddMeasure", n |-> n, rep |-> n = "m1"]) /\ UNCHANGED g
     \/ Len(auxs) < (IF Rich THEN 2 ELSE 1) /\ AddAux(Len(auxs)) /\ Ev([e |-> "AddAux", k |-> Len(auxs)]) /\ UNCHANGED g
     \/ ~duty /\ SetDuty(TRUE) /\ Ev([e |-> "SetDuty"]) /\ UNCHANGED g
Between ==
  /\ g.runs > 0 /\ Rich
  /\ \/ \E n \in DOMAIN reg : RmMeasure(n) /\ Ev([e |-> "RmMeasure", n |-> n]) /\ UNCHANGED g
     \/ CollectBegin /\ Ev([e |-> "Collect"]) /\ UNCHANGED g
Begin ==
  /\ g.runs < MaxRuns
  /\ \E op \in {"run", "warmup", "accumulate", "wa"}, n \in -1..MaxN, len \in 1..MaxLen, nw \in -1..1, meas \in BOOLEAN, s0 \in {-1, 2} :
       /\ (op # "wa" => nw = 0) /\ (op \in {"accumulate", "wa"} => meas) /\ (op = "warmup" => ~meas) /\ (op \in {"run", "accumulate"} => s0 = -1)
       /\ RunBegin(op, n, len, nw, meas, s0)
       /\ Ev([e |-> "RunBegin", op |-> op, n |-> n, len |-> len, nw |-> nw, meas |-> meas, s0 |-> s0])
       /\ G([g EXCEPT !.runs = @ + 1, !.steps = 0, !.meas = 0, !.wsteps = 0, !.wmeas = 0, !.duties = 0, !.polls = 0, !.st = -1, !.sigd = FALSE, !.stopped = FALSE,
                      !.ph = IF s0 = -1 THEN @ ELSE s0])
MaxSteps == 2 * MaxN * MaxLen + MaxLen
Run ==
  \/ \E id \in (IF Rich THEN {1, 3} ELSE IF g.att % 2 = 0 THEN {1} ELSE {3}), m \in {"fin", "inf", "nan"}, r \in (IF Rich THEN {0, 2, 4} ELSE {0, 2}), ph \in {0, 1, 2}, thr \in BOOLEAN :
       /\ g.steps + g.wsteps < MaxSteps
       /\ (m # "fin" => r = 0) /\ (~Cplx => ph # 1) /\ (Cplx => ph # 2) /\ (m = "nan" \/ (Cplx /\ m = "inf") \/ thr => Faults)
       /\ (r = 0 => ph = 0) /\ (thr => m = "fin" /\ r = 2 /\ ph = 0)
       /\ Attempt(id, m, r, ph, <<>>, thr)
       /\ Ev([e |-> "Attempt", m |-> m, r |-> r, ph |-> ph, thr |-> thr])
       /\ G([g EXCEPT !.att = @ + 1, !.bad = IF Bad(m, thr) THEN @ + 1 ELSE @])
  \/ \E ph \in {0, 2}, thr \in BOOLEAN : /\ (thr => Faults /\ ph = 0) /\ Accept(cur.id, ph, thr) /\ Ev([e |-> "Accept", ph |-> ph, thr |-> thr])
       /\ G([g EXCEPT !.acc = @ + 1, !.ph = IF thr THEN @ ELSE @ + cur.ph + ph, !.steps = IF thr THEN @ ELSE @ + 1])
  \/ \E thr \in BOOLEAN : (thr => Faults) /\ Reject(cur.id, thr) /\ Ev([e |-> "Reject", thr |-> thr]) /\ G([g EXCEPT !.rej = @ + 1, !.steps = IF thr THEN @ ELSE @ + 1])
  \/ \E thr \in BOOLEAN : (thr => Faults) /\ Duty(thr) /\ Ev([e |-> "Duty", thr |-> thr]) /\ G([g EXCEPT !.duties = @ + 1])
  \/ \E thr \in BOOLEAN : (thr => Faults) /\ pc = "aux" /\ todo # <<>> /\ Aux(Head(todo), thr) /\ Ev([e |-> "Aux", thr |-> thr]) /\ UNCHANGED g
  \/ \E n \in DOMAIN reg, thr \in BOOLEAN : (thr => Faults) /\ Measure(n, sign, thr) /\ Ev([e |-> "Measure", n |-> n, thr |-> thr])
       /\ G([g EXCEPT !.meas = IF Left = {n} THEN @ + 1 ELSE @])
  \/ \E n \in DOMAIN reg : Rich /\ Report(n) /\ Ev([x \in {} |-> 0]) /\ UNCHANGED g
  \/ \E r \in BOOLEAN : /\ (g.steps + g.wsteps >= MaxSteps => r) /\ Poll(r) /\ Ev([e |-> "Poll", r |-> r])
       /\ G([g EXCEPT !.wsteps = IF run'.wa # run.wa THEN g.steps ELSE @, !.steps = IF run'.wa # run.wa THEN 0 ELSE @,
                      !.wmeas = IF run'.wa # run.wa THEN g.meas ELSE @, !.meas = IF run'.wa # run.wa THEN 0 ELSE @,
                      !.sigd = IF run'.wa # run.wa THEN FALSE ELSE @, !.stopped = IF run'.wa # run.wa THEN FALSE ELSE @ \/ r,
                      !.polls = IF run'.wa # run.wa THEN 0 ELSE @ + 1, !.duties = IF run'.wa # run.wa THEN 0 ELSE @])
  \/ pc \in (IF Rich THEN {"decide", "poll", "meas"} ELSE {"decide"}) /\ ~sig /\ Signal /\ Ev([e |-> "Signal", at |-> pc]) /\ G([g EXCEPT !.sigd = TRUE])
  \/ \E st \in 0..2 : RunEnd(st) /\ Ev([x \in {} |-> 0]) /\ G([g EXCEPT !.st = st])
  \/ RunError /\ Ev([x \in {} |-> 0]) /\ G([g EXCEPT !.st = 9])
  \/ Aborted /\ Ev([x \in {} |-> 0]) /\ G([g EXCEPT !.st = 8])
Collecting ==
  \/ \E n \in DOMAIN reg : CollectM(n, reg[n].cnt) /\ Ev([x \in {} |-> 0]) /\ UNCHANGED g
  \/ \E id \in {1, 3} : MoveCollect(id) /\ Ev([x \in {} |-> 0]) /\ UNCHANGED g
  \/ /\ CollectEnd(IF stat.ok THEN <<<<"mv1", Rate(stat.a[1], stat.p[1])>>, <<"mv3", Rate(stat.a[3], stat.p[3])>>, <<"set2", Rate(stat.a[3], stat.p[3])>>>> ELSE <<<<"x", 0>>>>)
     /\ Ev([x \in {} |-> 0]) /\ UNCHANGED g
Next == Setup \/ Between \/ Begin \/ Run \/ Collecting
Spec == Init /\ [][Next]_<<vars, g, opj>>
View == <<vars, g>>

-----------------------------------------------------------------------------
(* One decision per proposal, and nothing else in between. *)
OneDecision == g.att = g.acc + g.rej + g.bad + (IF pc = "decide" THEN 1 ELSE 0)
SignIsProduct == sign = g.ph % 4
Stat == stat.ok => \A id \in {1, 3} : stat.a[id] <= stat.p[id]
(* what a returned status means *)
Completed == (pc = "idle" /\ g.st = 0 /\ g.runs > 0) =>
               /\ g.steps = run.n * run.len /\ run.n >= 0 /\ g.polls = run.n
               /\ (duty => g.duties = run.n)
               /\ (run.meas => (DOMAIN reg # {} => g.meas = run.n)) /\ (~run.meas => g.meas = 0)
NoWarmupMeasure == g.wmeas = 0
StatusMeans == pc = "idle" => /\ (g.st = 1 => g.stopped) /\ (g.st = 2 => g.sigd) /\ (g.st = 9 => g.bad > 0 \/ ~stat.ok \/ run.err)
ErrorNeverNormal == (pc = "idle" /\ run.err) => g.st \in {-1, 9}
CountsAgree == pc = "idle" => ncyc[1] <= ncyc[2]
=============================================================================
