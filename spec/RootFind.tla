------------------------------- MODULE RootFind -------------------------------
(* Solving f(x) = y by bracketing: "dich" searches from x0 downhill in steps until the sign of f - y changes and then
   refines inside the bracket until |f - y| is below the precision; "bis" looks for one point on each side of the root in
   steps from x0, then halves.  The function is an adversary: it answers every evaluation with a sign s of f(x) - y and a
   level w, comparing |f(x) - y| with the precision (0 below, 1 equal, 2 above; 3 not a number).
   A position is an order number; k counts the steps of a position from x0. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE st
NoRun == [phase |-> "idle"]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* pts: the evaluated points that may be reported or that end the search; seen: signs met so far; nan: a value was no number
Start(algo, max, must) == st' = [phase |-> "first", algo |-> algo, max |-> max, must |-> must, n |-> 0, pts |-> {}, seen |-> {}, nan |-> FALSE, k |-> <<0, 0>>, dir |-> 0, lo |-> 0, hi |-> 0, slo |-> 0]
Good == {p \in st.pts : p.w = 0}
\* next point of the search: dich goes against the sign found at x0, bis goes both ways
NextStep(k) == IF st.algo = "dich" THEN st.dir # 0 /\ k = st.dir * (st.k[2] + 1) ELSE (k >= st.k[1] - 1 /\ k <= st.k[2] + 1)
Budget == IF st.algo = "dich" THEN st.n <= st.max + 1 ELSE st.n <= 4 * st.max + 10
MayEval(x, k) ==
  /\ st.phase \in {"first", "search", "refine"} /\ Budget
  /\ st.algo = "dich" => Good = {}
  /\ CASE st.phase = "first" -> IF st.algo = "dich" THEN k = 0 ELSE k \in {0, 1}
       [] st.phase = "search" -> NextStep(k)
       [] st.phase = "refine" -> (st.lo <= x /\ x <= st.hi) \/ (st.algo = "bis" /\ NextStep(k) /\ k >= -st.max - 1 /\ k <= st.max + 1)
\* the hull of two points of opposite sign (bis: all points so far) is the bracket
Crossed(seen) == 0 \in seen \/ {-1, 1} \subseteq seen
Eval(x, k, s, w) ==
  /\ MayEval(x, k)
  /\ LET p == [x |-> x, s |-> s, w |-> w]
         seen == st.seen \cup {s}
         keep == IF st.algo = "dich" THEN w <= 1 ELSE Crossed(seen)
         base == [st EXCEPT !.n = st.n + 1, !.pts = IF keep THEN @ \cup {p} ELSE @, !.seen = seen, !.nan = @ \/ w = 3]
         hull == IF st.phase = "first" THEN [base EXCEPT !.lo = x, !.hi = x] ELSE [base EXCEPT !.lo = Min2(@, x), !.hi = Max2(@, x)]
     IN st' = IF st.algo = "dich"
              THEN CASE st.phase = "first" -> [hull EXCEPT !.phase = "search", !.dir = -s, !.slo = s]
                     [] st.phase = "search" -> IF s * st.slo <= 0 \/ w <= 1
                                               THEN [hull EXCEPT !.phase = "refine", !.slo = IF x < st.lo THEN s ELSE st.slo, !.k = <<0, st.k[2] + 1>>]
                                               ELSE [hull EXCEPT !.k = <<0, st.k[2] + 1>>]
                     [] OTHER -> IF s * st.slo > 0 THEN [base EXCEPT !.lo = x] ELSE [base EXCEPT !.hi = x]
              ELSE [hull EXCEPT !.k = IF NextStep(k) THEN <<Min2(st.k[1], k), Max2(st.k[2], k)>> ELSE @, !.phase = IF Crossed(seen) THEN "refine" ELSE "search"]
\* a reported solution was evaluated and is as good as asked (bis: f changes sign within the tolerance on x, as in <<sl, sh>>)
Found(x, sl, sh) ==
  /\ st.phase \in {"search", "refine"}
  /\ \E p \in st.pts : p.x = x /\ (st.algo = "dich" => p.w <= 1) /\ (st.algo = "bis" => sl * sh <= 0 \/ sl * p.s <= 0)
  /\ st' = [st EXCEPT !.phase = "found"]
\* giving up: only after all iterations (dich) or if no bracket can be had, and never if the root is in reach ("must")
Fail ==
  /\ st.phase \in {"search", "refine"} /\ ~st.must
  /\ st.algo = "dich" => st.n > st.max \/ st.nan
  /\ st' = [st EXCEPT !.phase = "failed"]
===============================================================================
