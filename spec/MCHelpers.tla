------------------------------ MODULE MCHelpers ------------------------------
EXTENDS Helpers, Json
CONSTANTS MaxAct, MaxDepth, MaxLen, Parts
VARIABLES opj, na, n
Init == /\ depth = 0 /\ gs = [i \in 1..NG |-> NoG] /\ ran = <<>> /\ rep = <<>> /\ txt = "" /\ now = 0 /\ tm = [i \in 1..2 |-> [run |-> FALSE, since |-> 0, acc |-> 0]]
        /\ exc = <<"", "">> /\ opj = "{}" /\ na = 0 /\ n = 0
Ev(o) == opj' = ToJson(o)
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => f[a] # f[b]}
Dying == {i \in 1..NG : gs[i].sc = depth /\ gs[i].armed}
GuardOps ==
  \/ depth < MaxDepth /\ Enter /\ UNCHANGED na /\ Ev([op |-> "enter"])
  \/ \E i \in 1..NG : na < MaxAct /\ Guard(i, na + 1) /\ na' = na + 1 /\ \E m \in 0..1 : Ev([op |-> "guard", i |-> i, a |-> na + 1, how |-> m])
  \/ \E i \in 1..NG : gs[i].sc >= 0 /\ Dismiss(i) /\ UNCHANGED na /\ Ev([op |-> "dismiss", i |-> i])
  \/ \E i \in 1..NG : gs[i].sc >= 0 /\ Active(i, gs[i].armed) /\ UNCHANGED na /\ Ev([op |-> "active", i |-> i])
  \/ \E i, j \in 1..NG : MoveNew(i, j) /\ UNCHANGED na /\ Ev([op |-> "movenew", i |-> i, j |-> j])
  \/ \E i, j \in 1..NG : MoveAssign(i, j) /\ UNCHANGED na /\ Ev([op |-> "moveassign", i |-> i, j |-> j])
  \/ \E as \in Perms({gs[i].act : i \in Dying}) : Leave(as) /\ UNCHANGED na /\ \E t \in BOOLEAN : Ev([op |-> "leave", throw |-> t])
TimerOps ==
  \/ \E ms \in {1, 250} : Elapse(ms) /\ Ev([op |-> "elapse", ms |-> ms])
  \/ \E i \in 1..2 : (TStart(i) /\ Ev([op |-> "tstart", i |-> i])) \/ (TStop(i) /\ Ev([op |-> "tstop", i |-> i])) \/ (TReset(i) /\ Ev([op |-> "treset", i |-> i]))
  \/ \E i \in 1..2 : UNCHANGED vars /\ Ev([op |-> "tread", i |-> i])
ReportOps ==
  \/ \E v \in -1..4 : Len(rep) < 3 /\ Report(v) /\ Ev([op |-> "report", v |-> v])
  \/ \E k \in 1..Len(rep), l \in -1..5 : Len(rep) < 5 /\ Level(k, l) /\ Ev([op |-> "level", k |-> k, n |-> l])
  \/ \E k \in 1..Len(rep) : UNCHANGED vars /\ Ev([op |-> "print", k |-> k])
  \/ \E k \in 1..Len(rep), l \in -1..5 : UNCHANGED vars /\ Ev([op |-> "printlevel", k |-> k, n |-> l])
ExcOps ==
  \/ \E i \in 1..2 : XNew(i) /\ Ev([op |-> "xnew", i |-> i])
  \/ \E i \in 1..2, s \in {"a", "bcd", "x y"} : XAdd(i, s) /\ Ev([op |-> "xadd", i |-> i, s |-> s])
  \/ \E i, j \in 1..2 : XCopy(i, j) /\ i # j /\ Ev([op |-> "xcopy", i |-> i, j |-> j])
  \/ \E i \in 1..2 : UNCHANGED vars /\ Ev([op |-> "xwhat", i |-> i])
Next == /\ n < MaxLen /\ n' = n + 1
        /\ \/ "g" \in Parts /\ GuardOps
           \/ "t" \in Parts /\ TimerOps /\ UNCHANGED na
           \/ "r" \in Parts /\ ReportOps /\ UNCHANGED na
           \/ "x" \in Parts /\ ExcOps /\ UNCHANGED na
Spec == Init /\ [][Next]_<<vars, opj, na, n>>
View == <<vars, na, n>>
-----------------------------------------------------------------------------
Count(a) == Cardinality({k \in 1..Len(ran) : ran[k] = a})
(* an action is run at most once, is held by at most one armed guard, and not both; no armed guard survives its scope *)
OnceOnly == \A a \in 1..na : Count(a) + Cardinality({i \in 1..NG : gs[i].armed /\ gs[i].act = a}) <= 1
NoStray == \A i \in 1..NG : gs[i].sc <= depth
==============================================================================
