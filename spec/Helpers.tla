------------------------------- MODULE Helpers -------------------------------
(* Scope guards, levelled reports, timers and accumulated error messages. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  depth,   \* number of open scopes
  gs,      \* guard -> [act, armed, sc]: the action it holds, whether it will run it, the scope it lives in; sc = -1: no such guard
  ran,     \* actions run so far, in order
  rep,     \* report streams: stream -> verbosity
  txt,     \* what has been printed
  now, tm, \* clock and timers: [run, since, acc]
  exc      \* message of the exception objects
vars == <<depth, gs, ran, rep, txt, now, tm, exc>>
NG == 4
NoG == [act |-> 0, armed |-> FALSE, sc |-> -1]
Setup == /\ depth = depth /\ depth' = 0 /\ gs' = [i \in 1..NG |-> NoG] /\ ran' = <<>> /\ rep' = <<>> /\ txt' = "" /\ now' = 0
         /\ tm' = [i \in 1..2 |-> [run |-> FALSE, since |-> 0, acc |-> 0]] /\ exc' = <<"", "">>
G == UNCHANGED <<rep, txt, now, tm, exc>>
(* ---- scope guards *)
Enter == depth' = depth + 1 /\ UNCHANGED <<gs, ran>> /\ G
Guard(i, a) == gs[i].sc = -1 /\ depth > 0 /\ gs' = [gs EXCEPT ![i] = [act |-> a, armed |-> TRUE, sc |-> depth]] /\ UNCHANGED <<depth, ran>> /\ G
Dismiss(i) == gs[i].sc >= 0 /\ gs' = [gs EXCEPT ![i].armed = FALSE] /\ UNCHANGED <<depth, ran>> /\ G
Active(i, r) == gs[i].sc >= 0 /\ r = gs[i].armed /\ UNCHANGED vars
(* a new guard, in the current scope, takes over the action; the old one never runs it *)
MoveNew(i, j) == /\ gs[i].sc >= 0 /\ gs[j].sc = -1 /\ depth > 0
                 /\ gs' = [gs EXCEPT ![j] = [act |-> gs[i].act, armed |-> gs[i].armed, sc |-> depth], ![i].armed = FALSE] /\ UNCHANGED <<depth, ran>> /\ G
(* assignment exchanges the actions *)
MoveAssign(i, j) == /\ gs[i].sc >= 0 /\ gs[j].sc >= 0 /\ i # j
                    /\ gs' = [gs EXCEPT ![j] = [gs[i] EXCEPT !.sc = gs[j].sc], ![i] = [gs[j] EXCEPT !.sc = gs[i].sc]] /\ UNCHANGED <<depth, ran>> /\ G
(* leaving a scope, normally or by an exception, destroys its guards (order: the sequence as, of the actions run) *)
Leave(as) ==
  LET dying == {i \in 1..NG : gs[i].sc = depth}
      acts == {gs[i].act : i \in {k \in dying : gs[k].armed}}
  IN /\ depth > 0 /\ Len(as) = Cardinality({i \in dying : gs[i].armed}) /\ {as[k] : k \in 1..Len(as)} = acts
     /\ ran' = ran \o as /\ gs' = [i \in 1..NG |-> IF i \in dying THEN NoG ELSE gs[i]] /\ depth' = depth - 1 /\ G
(* ---- reports: stream k of verbosity v; level n of it has verbosity v - n + 1; it prints when positive *)
R == UNCHANGED <<depth, gs, ran, now, tm, exc>>
Report(v) == rep' = Append(rep, v) /\ UNCHANGED txt /\ R
Level(k, n) == rep' = Append(rep, rep[k] - n + 1) /\ UNCHANGED txt /\ R
PrintTo(k, s, seen) == seen = (IF rep[k] > 0 THEN s ELSE "") /\ UNCHANGED vars
PrintLevel(k, n, s, seen) == seen = (IF n <= rep[k] THEN s ELSE "") /\ UNCHANGED vars
(* ---- timers *)
T == UNCHANGED <<depth, gs, ran, rep, txt, exc>>
Elapse(ms) == now' = now + ms /\ UNCHANGED tm /\ T
TStart(i) == ~tm[i].run /\ tm' = [tm EXCEPT ![i] = [@ EXCEPT !.run = TRUE, !.since = now]] /\ UNCHANGED now /\ T
TStop(i) == tm[i].run /\ tm' = [tm EXCEPT ![i] = [run |-> FALSE, since |-> 0, acc |-> @.acc + now - @.since]] /\ UNCHANGED now /\ T
TRead(i, ms, r) == ms = tm[i].acc + (IF tm[i].run THEN now - tm[i].since ELSE 0) /\ r = tm[i].run /\ UNCHANGED vars
TReset(i) == tm' = [tm EXCEPT ![i] = [run |-> FALSE, since |-> 0, acc |-> 0]] /\ UNCHANGED now /\ T
(* ---- messages of exceptions: what was streamed in, in order; copies have their own; rank is named when MPI is up *)
X == UNCHANGED <<depth, gs, ran, rep, txt, now, tm>>
XNew(i) == exc' = [exc EXCEPT ![i] = ""] /\ X
XAdd(i, s) == exc' = [exc EXCEPT ![i] = @ \o s] /\ X
XCopy(i, j) == exc' = [exc EXCEPT ![j] = exc[i]] /\ X
XWhat(i, s) == s = exc[i] /\ UNCHANGED vars
==============================================================================
