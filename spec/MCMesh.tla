-------------------------------- MODULE MCMesh --------------------------------
(* All histories of a few small meshes; the correspondence of points, indices and positions, and properties of the weights of an evaluation. *)
EXTENDS Mesh, Json
CONSTANTS Ids, Kinds, MaxOps
VARIABLES opj, nops
Betas == {<<1, 1>>, <<5, 2>>}
Sts == {"F", "B"}
Lat == {<<<<2>>>>, <<<<2, 1>>, <<1, 2>>>>, <<<<1, 0>>, <<1, 1>>>>, <<<<0, 1, 1>>, <<1, 0, 1>>, <<1, 1, 0>>>>}
Dims(u) == {<<a, b, c>> \in (1..3) \X (1..3) \X (1..2) : (Dim(u) < 2 => b = 1) /\ (Dim(u) < 3 => c = 1)}
Par(t) ==
  CASE t = "imfreq" -> {[t |-> t, beta |-> b, s |-> s, n |-> n, pos |-> p] : b \in Betas, s \in Sts, n \in 1..2, p \in BOOLEAN}
    [] t \in {"imtime", "legendre"} -> {[t |-> t, beta |-> b, s |-> s, n |-> n] : b \in Betas, s \in Sts, n \in 1..3}
    [] t \in {"retime", "refreq"} -> {[t |-> t, a |-> a, b |-> <<2, 1>>, n |-> n] : a \in {<<-1, 1>>, <<1, 2>>}, n \in 1..3}
    [] t = "discrete" -> {[t |-> t, n |-> n] : n \in 1..3}
    [] OTHER -> UNION {{[t |-> t, u |-> u, d |-> d] : d \in Dims(u)} : u \in Lat}
J(r) == opj' = ToJson(r)
Allowed == {<<"imfreq", "imtime">>, <<"brzone", "imfreq">>, <<"legendre", "brzone">>, <<"imtime", "imtime">>, <<"cyclat", "retime">>}
Next ==
  /\ nops < MaxOps /\ nops' = nops + 1
  /\ \/ \E i \in Ids, t \in Kinds : \E p \in Par(t) : New(i, p) /\ J([op |-> "new", id |-> i, p |-> p])
     \/ \E i \in Ids, j \in DOMAIN ms : Copy(i, j) /\ J([op |-> "copy", id |-> i, j |-> j])
     \/ \E i \in Ids, j \in DOMAIN ms : Positive(i, j) /\ J([op |-> "pos", id |-> i, j |-> j])
     \/ \E i \in Ids, j, k \in DOMAIN ms : <<ms[j].t, ms[k].t>> \in Allowed /\ Prod(i, <<j, k>>) /\ J([op |-> "prod", id |-> i, a |-> <<j, k>>])
     \/ \E j, k \in DOMAIN ms : UNCHANGED ms /\ J([op |-> "eq", j |-> j, k |-> k])
Init == ms = <<>> /\ opj = "{}" /\ nops = 0
Spec == Init /\ [][Next]_<<ms, opj, nops>>
View == <<ms, nops>>
RECURSIVE SizeList(_)
SizeList(f) == IF f = <<>> THEN 1 ELSE SizeOf(Head(f)) * SizeList(Tail(f))
OneToOne == \A id \in DOMAIN ms : LET m == ms[id] P == Points(m) IN
  /\ Len(P) = SizeList(Factors(m))
  /\ \A j, k \in 1..Len(P) : (P[j][1] = P[k][1] \/ P[j][2] = P[k][2]) => j = k
  /\ \A k \in 1..Len(P) : Valid(m, P[k][1])
  /\ m.t # "prod" => \A k \in 1..Len(P) : P[k][2] = <<k - 1>> /\ PosOf(m, P[k][1]) = k - 1
\* weights of evaluations sum up to one, and at a point of the mesh the value there is reproduced
Sum(W) == LET S[k \in 0..Len(W)] == IF k = 0 THEN RZero ELSE RAdd(S[k - 1], W[k][2]) IN S[Len(W)]
AtPos(W, p) == LET S[k \in 0..Len(W)] == IF k = 0 THEN RZero ELSE IF W[k][1] = p THEN RAdd(S[k - 1], W[k][2]) ELSE S[k - 1] IN S[Len(W)]
ArgOf(m, i) == IF m.t \in Linear THEN <<"val", LinVal(m, i[1])>> ELSE <<"val", Value(m, i)>>
Interpolation == \A id \in DOMAIN ms : LET m == ms[id] IN
  (m.t = "brzone" \/ (m.t \in Linear /\ m.n > 1)) =>
    \A k \in 0..(SizeOf(m) - 1) : LET W == TLCEval(Weights(m, ArgOf(m, IndexAt(m, k)))) IN Sum(W) = <<1, 1>> /\ AtPos(W, k) = <<1, 1>>
\* a point of the mesh is the point closest to its own value, wherever the value is translated by reciprocal lattice vectors
SelfClosest == \A id \in DOMAIN ms : LET m == ms[id] IN
  /\ m.t \in Linear => \A k \in 0..(m.n - 1) : m.n > 1 => ClosestSet(m, LinVal(m, k)) = {<<k>>}
  /\ m.t = "brzone" => \A k \in 0..(SizeOf(m) - 1) : LET i == IndexAt(m, k) IN ClosestSet(m, Value(m, [x \in 1..3 |-> i[x] - (IF x <= Dim(m.u) THEN m.d[x] ELSE 0)])) = {i}
\* the dual basis
DualOk == \A id \in DOMAIN ms : LET m == ms[id] IN
  m.t \in Periodic => \A a, b \in 1..3 : RDot(DualVec(m.u, a), IntVec(Row(m.u, b))) = (IF a = b THEN <<1, 1>> ELSE RZero)
===============================================================================
