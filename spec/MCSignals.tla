------------------------------ MODULE MCSignals ------------------------------
EXTENDS Signals, Json
CONSTANTS Sigs, MaxPend, MaxNow, MaxCb
VARIABLES opj,
  total   \* signals delivered in the current capture, and taken away: <<delivered, taken>>
Init == on = FALSE /\ pend = <<>> /\ now = 0 /\ cb = <<>> /\ opj = "{}" /\ total = <<0, 0>>
Ev(o) == opj' = ToJson(o)
Taken(k) == total' = <<total[1], total[2] + k>>
Next ==
  \/ Start /\ UNCHANGED total /\ Ev([op |-> "start"])
  \/ Stop /\ total' = <<0, 0>> /\ Ev([op |-> "stop"])
  \/ \E s \in Sigs : Len(pend) < MaxPend /\ total[1] < 3 /\ Deliver(s) /\ total' = <<total[1] + 1, total[2]>> /\ Ev([op |-> "raise", s |-> s])
  \/ \E p \in BOOLEAN, r \in BOOLEAN : Received(p, r) /\ Taken(IF p /\ r THEN 1 ELSE 0) /\ Ev([op |-> "received", pop |-> p])
  \/ \E s \in Sigs : Last(s) /\ UNCHANGED total /\ Ev([op |-> "last"])
  \/ Pop /\ Taken(1) /\ Ev([op |-> "pop"])
  \/ \E d \in {-1, 0, 1, 2} : Len(cb) < MaxCb /\ Callback(d) /\ UNCHANGED total /\ Ev([op |-> "callback", d |-> d])
  \/ \E ms \in {500, 1000} : now + ms <= MaxNow /\ Elapse(ms) /\ UNCHANGED total /\ Ev([op |-> "elapse", ms |-> ms])
  \/ \E i \in 1..Len(cb), r \in BOOLEAN : Ask(i, r) /\ UNCHANGED total /\ Ev([op |-> "ask", i |-> i])
Spec == Init /\ [][Next]_<<vars, opj, total>>
(* no signal is lost or invented *)
Counted == Len(pend) = total[1] - total[2]
(* a callback which fired keeps firing *)
Latched == [][\A i \in 1..Len(cb) : cb[i].dur > 0 /\ now > cb[i].at + 1000 * cb[i].dur => now' > cb[i].at + 1000 * cb[i].dur \/ cb' = <<>>]_vars
OnlyWhileOn == ~on => pend = <<>>
==============================================================================
