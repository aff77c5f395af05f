------------------------------- MODULE Signals -------------------------------
(* Capture of signals and time-based stop callbacks. *)
EXTENDS Integers, Sequences, TLC
VARIABLES on,    \* signals are being captured
          pend,  \* recorded and not yet popped, oldest first
          now,   \* the clock, in ms
          cb     \* stop callbacks created: sequence of [dur, at]
vars == <<on, pend, now, cb>>
Caught == {"INT", "TERM", "XCPU", "QUIT", "USR1", "USR2"}
Setup == on' = FALSE /\ pend' = <<>> /\ now' = 0 /\ cb' = <<>>
Start == on' = TRUE /\ UNCHANGED <<pend, now, cb>>
Stop == on' = FALSE /\ pend' = <<>> /\ UNCHANGED <<now, cb>>
(* signals are only delivered here while they are captured; the process survives and the signal is recorded, once *)
Deliver(s) == on /\ s \in Caught /\ pend' = Append(pend, s) /\ UNCHANGED <<on, now, cb>>
PopLast(p) == SubSeq(p, 1, Len(p) - 1)
Received(pop, r) == r = (pend # <<>>) /\ pend' = (IF pop /\ r THEN PopLast(pend) ELSE pend) /\ UNCHANGED <<on, now, cb>>
Last(s) == pend # <<>> /\ s = pend[Len(pend)] /\ UNCHANGED vars
Pop == pend # <<>> /\ pend' = PopLast(pend) /\ UNCHANGED <<on, now, cb>>
(* creating a callback starts the capture *)
Callback(d) == cb' = Append(cb, [dur |-> d, at |-> now]) /\ on' = TRUE /\ UNCHANGED <<pend, now>>
Elapse(ms) == ms > 0 /\ now' = now + ms /\ UNCHANGED <<on, pend, cb>>
Ask(i, r) ==
  /\ i \in 1..Len(cb)
  /\ LET end == cb[i].at + 1000 * cb[i].dur
     IN \/ cb[i].dur <= 0 /\ ~r
        \/ cb[i].dur > 0 /\ now < end /\ ~r
        \/ cb[i].dur > 0 /\ now > end /\ r
        \/ cb[i].dur > 0 /\ now = end
  /\ UNCHANGED vars
==============================================================================
