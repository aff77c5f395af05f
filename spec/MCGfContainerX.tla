---------------------------- MODULE MCGfContainerX -----------------------------
(* Every program of at most MaxOps operations of a small menu on Green's function containers: what they guarantee. *)
EXTENDS GfContainer
CONSTANT MaxOps
VARIABLES S, n, last, ok
K == "refreq"
Part0(b, i) == b \o "_" \o ToString(i)
XG == {"A1", "A2"}
XV == {"V1"}
XS == {"S1"}
XT == {"T1"}
XB == {"B1"}
XW == {"W1"}
Num(m, sh, k) == [i \in 1..(Size(K, m) * Tot(sh)) |-> CI(((i * k) % 3) - 1, (i + k) % 2)]
Mk0(d, m, sh, k) == [o |-> "new", d |-> d, m |-> m, sh |-> sh, v |-> Num(m, sh, k)]
S0 == Step(Step(Step(Empty, K, Mk0("A1", 3, <<1, 2>>, 1)).S, K, Mk0("A2", 3, <<1, 2>>, 2)).S, K, Mk0("S1", 3, <<>>, 1)).S
As(d, f, a, b) == [o |-> "assign", d |-> d, f |-> f, a |-> a, b |-> b, c |-> a, k |-> CI(0, 1), q |-> CI(2, 0)]
Ms == {"A1", "A2", "V1"}
Menu == {As(d, f, a, b) : d \in Ms, f \in {0, 12}, a \in {"A1", "V1"}, b \in {"A2", "V1"}}
   \cup {[o |-> "comp", d |-> d, b |-> b, f |-> f, k |-> CI(0, 1)] : d \in Ms, b \in {"A2", "V1"}, f \in {1, 4}}
   \cup {[o |-> "from", d |-> d, a |-> a] : d, a \in Ms}
   \cup {[o |-> "copy", d |-> "A2", a |-> a] : a \in {"A1", "V1"}}
   \cup {Mk0("A2", 3, <<1, 1>>, 1), Mk0("A1", 1, <<1, 2>>, 1)}
   \cup {[o |-> "rebind", d |-> "V1", a |-> "A2"], [o |-> "rebind", d |-> "V1", a |-> "A1"], [o |-> "slice", d |-> "V1", a |-> "A1", r |-> <<1, 1, 2, 2>>],
         [o |-> "slice", d |-> "V1", a |-> "V1", r |-> <<1, 1, 1, 1>>], [o |-> "elem", d |-> "T1", a |-> "A1", r |-> <<1, 2>>], [o |-> "asmat", d |-> "V1", a |-> "S1"],
         [o |-> "assign", d |-> "T1", f |-> 1, a |-> "S1", b |-> "T1", c |-> "S1", k |-> COne, q |-> COne], [o |-> "from", d |-> "S1", a |-> "T1"],
         [o |-> "set", d |-> "V1", p |-> 2, t |-> 1, k |-> CI(1, 1)], [o |-> "set", d |-> "T1", p |-> 1, t |-> 1, k |-> CI(0, 0)],
         [o |-> "conj", d |-> "A2", a |-> "A1"], [o |-> "conj", d |-> "A1", a |-> "V1"]}
   \cup {[o |-> "bnew", d |-> "B1", names |-> <<"u", "d">>, a |-> <<"A1", "A2">>], [o |-> "bnew", d |-> "B1", names |-> <<"x">>, a |-> <<"V1">>],
         [o |-> "bview", d |-> "W1", a |-> "B1"], [o |-> "rebind", d |-> "V1", a |-> "B1_1"],
         [o |-> "bassign", d |-> "W1", f |-> 0, a |-> "B1", b |-> "W1", c |-> "B1", k |-> COne, q |-> COne],
         [o |-> "bassign", d |-> "B1", f |-> 6, a |-> "W1", b |-> "W1", c |-> "W1", k |-> COne, q |-> COne],
         [o |-> "bfrom", d |-> "B1", a |-> "W1"], [o |-> "bcomp", d |-> "B1", b |-> "W1", f |-> 1, k |-> COne]}
BAl(b) == S.bn[b] # <<>> /\ \A i \in 1..BLen(S, b) : Alive(S, Part(b, i))
Scalar(x) == x \in {"S1", "T1"}
W(x) == Val(S, x)
Reads(op) == CASE op.o = "assign" -> {op.a} \cup (IF Uses(op.f) > 1 THEN {op.b} ELSE {}) [] op.o = "comp" -> IF Uses(op.f) > 1 THEN {op.b} ELSE {} [] op.o = "from" -> {op.a} [] OTHER -> {}
Res(op) == CASE op.o = "assign" -> Ev(K, op.f, W(op.a), W(op.b), W(op.c), op.k, op.q) [] op.o = "comp" -> Ev(K, op.f, W(op.d), W(op.b), W(op.b), op.k, op.k) [] OTHER -> W(op.a)
Can(op) ==
  CASE op.o = "new" -> TRUE
    [] op.o \in {"copy", "conj", "rebind", "asmat"} -> Alive(S, op.a) /\ (op.o = "copy" => op.a # op.d)
    [] op.o = "elem" -> Alive(S, op.a) /\ op.r[2] <= S.ob[op.a].sh[2]
    [] op.o = "slice" -> Alive(S, op.a) /\ op.r[4] <= S.ob[op.a].sh[2]
    [] op.o = "set" -> Alive(S, op.d)
    [] op.o \in {"assign", "comp", "from"} ->
         /\ \A x \in Reads(op) : Alive(S, x)
         /\ op.o = "assign" => Alive(S, op.b)
         /\ op.o = "comp" => Alive(S, op.b)
         /\ op.d \in Looks \/ op.o = "comp" => Alive(S, op.d)
         /\ op.o = "from" => op.a # op.d
         /\ LET w == Res(op) IN ShapeFits(S, op.d, w) /\ (\A x \in Reads(op) : CanRead(S, op.d, x, w)) /\ (op.o = "comp" /\ op.d \in Owners /\ w.ok => Fits(S, op.d, w))
    [] op.o = "bnew" -> (\A i \in 1..Len(op.a) : Alive(S, op.a[i])) /\ (Len(op.a) = 2 => S.ob[op.a[1]].m = S.ob[op.a[2]].m)
    [] op.o = "bview" -> BAl("B1")
    [] op.o \in {"bassign", "bfrom", "bcomp"} -> /\ BAl("B1") /\ BAl("W1")
         /\ BLen(S, "B1") = BLen(S, "W1") /\ \A i \in 1..BLen(S, "B1") : S.ob[Part("B1", i)] = S.ob[Part("W1", i)]
Init == S = S0 /\ n = 0 /\ last = [o |-> "none"] /\ ok = TRUE
Next == /\ n < MaxOps
        /\ \E op \in Menu : Can(op) /\ \E r \in {TLCEval(Step(S, K, op))} :
             /\ \A x \in Owners : \A i \in 1..Len(r.S.ob[x].at) : Small(r.S.mem[r.S.ob[x].at[i]], 60)
             /\ S' = r.S /\ n' = n + 1 /\ last' = op /\ ok' = r.ok
Spec == Init /\ [][Next]_<<S, n, last, ok>>
(* ------------------------------ guarantees ----------------------------- *)
Inv == Invariant(S) /\ \A b \in XB \cup XW : S.bn[b] # <<>> => Len(S.bn[b]) <= MaxBlocks
Mine(T, d) == IF d \in Ids THEN Addr(T, d) ELSE UNION {Addr(T, Part(d, i)) : i \in 1..MaxBlocks}
ViewOps == {"rebind", "slice", "elem", "asmat", "bview"}
NewOps == {"new", "copy", "conj", "bnew"}
Frame == [][LET op == last' IN
  /\ ~ok' => S' = S
  \* only the elements of the destination are written
  /\ \A a \in 1..Len(S.mem) : S'.mem[a] # S.mem[a] => a \in Mine(S, op.d)
  /\ op.o \in ViewOps => S'.mem = S.mem
  /\ op.o \in NewOps => \A x \in Ids : Alive(S', x) /\ x # op.d /\ (\A i \in 1..MaxBlocks : op.d \in XB => x # Part(op.d, i)) => Addr(S', x) \cap Mine(S', op.d) = {}
  \* whatever shares no element with the destination keeps its value
  /\ \A x \in Ids : Alive(S, x) /\ Alive(S', x) /\ Addr(S, x) \cap Mine(S, op.d) = {} /\ x # op.d /\ (op.o = "bview" => x \notin VParts) /\ (op.d \in XB => x \notin BParts)
        => W(x) = Val(S', x)
  \* the destination has the value of the expression, as read before
  /\ op.o \in {"assign", "comp", "from"} /\ ok' => LET w == Res(op) v == Val(S', op.d) IN v.v = w.v /\ v.m = w.m /\ v.sh = w.sh ]_<<S, n, last, ok>>
===============================================================================
