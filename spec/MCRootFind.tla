------------------------------ MODULE MCRootFind ------------------------------
(* All functions on a grid 0..G with values -V..V (non-decreasing, or any), all starting points, budgets and precisions. *)
EXTENDS RootFind, Json
CONSTANTS G, V, Maxs, Any
VARIABLES opj, run
X == 0..G
Mono(f) == \A x \in 0..(G-1) : f[x] <= f[x+1]
Fns == {f \in [X -> -V..V] : Any \/ Mono(f)}
At(x) == run.f[IF x < 0 THEN 0 ELSE IF x > G THEN G ELSE x]
Sgn(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
Abs(v) == IF v < 0 THEN -v ELSE v
Lev(v) == IF Abs(v) < run.pr THEN 0 ELSE IF Abs(v) = run.pr THEN 1 ELSE 2
Table(f) == [i \in 1..(G+1) |-> f[i-1]]
Begin == st.phase = "idle" /\ \E f \in Fns, x0 \in X, m \in Maxs, pr \in 0..1, a \in {"dich", "bis"} :
          /\ run' = [f |-> f, x0 |-> x0, pr |-> pr]
          /\ Start(a, m, FALSE)
          /\ opj' = ToJson([algo |-> a, f |-> Table(f), x0 |-> x0, max |-> m, pr |-> pr])
\* when the solvers go on and when they stop
Stop == st.phase # "first" /\ IF st.algo = "dich" THEN Good # {} \/ \E p \in st.pts : p.w = 1
                             ELSE st.phase = "refine" /\ \E p \in st.pts : \E y \in {p.x-1, p.x, p.x+1} : Sgn(At(y)) * p.s <= 0
Next ==
  \/ Begin
  \/ st.phase \in {"first", "search", "refine"} /\ ~Stop /\ (\E x \in -6..(G+6) : Eval(x, x - run.x0, Sgn(At(x)), Lev(At(x)))) /\ UNCHANGED <<opj, run>>
  \/ st.phase \in {"search", "refine"} /\ Stop /\ (\E p \in st.pts : Found(p.x, Sgn(At(p.x-1)), Sgn(At(p.x+1)))) /\ UNCHANGED <<opj, run>>
  \/ st.phase \in {"search", "refine"} /\ ~Stop /\ Fail /\ UNCHANGED <<opj, run>>
Init == st = NoRun /\ opj = "{}" /\ run = <<>>
Spec == Init /\ [][Next]_<<st, opj, run>>
Running == st.phase # "idle"
Bracketed == Running /\ st.phase = "refine" /\ st.algo = "dich" /\ Good = {} => Sgn(At(st.lo)) * Sgn(At(st.hi)) <= 0 \/ \E p \in st.pts : p.w = 1
Solved == Running /\ st.phase = "found" /\ st.algo = "dich" => \E p \in st.pts : Abs(At(p.x)) <= run.pr
Bounded == Running => (st.algo = "dich" => st.n <= st.max + 2) /\ st.n <= 4 * st.max + 11
\* within its budget dich never leaves the bracket, and neither does it step away from the root of a non-decreasing function
Towards == Running /\ ~Any /\ st.phase = "refine" /\ Good = {} /\ st.algo = "dich" => At(st.lo) <= run.pr /\ At(st.hi) >= -run.pr
===============================================================================
