------------------------------- MODULE MCGfHeapX ------------------------------
(* Every program of at most MaxOps operations of a small menu on two Gfs and a block Gf: what the heap guarantees. *)
EXTENDS GfHeap
CONSTANT MaxOps, Shape0
VARIABLES S, n, last
Regs == {"a", "b", "c", "P"}
F1 == [k |-> "ImFreq", st |-> "F", v |-> <<CI(0, -1), CI(0, 1)>>]
R1 == [k |-> "ReFreq", st |-> "", v |-> <<CI(2, 0)>>]
Sh22 == <<2, 2>>
Sh0 == <<>>
M0 == IF Shape0 = Sh0 THEN <<F1, R1>> ELSE <<F1>>
Vals(k) == [mesh |-> M0, shape |-> Shape0, real |-> FALSE,
            d |-> [i \in 1..(MSize(M0) * TSize(Shape0)) |-> CI(((i * k) % 3) + (IF i % 3 = 1 THEN 1 ELSE 0), (i + k) % 2)]]
None == [t |-> "none"]
E0 == [heap |-> <<>>, regs |-> [r \in Regs |-> None]]
S0 == LET x == Alloc(E0, Vals(1)) y == Alloc(x.S, Vals(2))
      IN [y.S EXCEPT !.regs["a"] = x.g, !.regs["b"] = y.g, !.regs["P"] = [t |-> "blk", keys |-> <<"u", "d">>, gs |-> <<x.g, y.g>>]]
A(r) == [a |-> "reg", r |-> r]
Num(z) == [a |-> "num", z |-> z]
Om == [o |-> "om"]
Bin == {[o |-> o, x |-> x, d |-> "c", a |-> y] : o \in {"add", "sub", "mul"}, x \in {"a", "c"}, y \in {A("b"), A("c"), Num(CI(0, 1))}}
Inp == {[o |-> o, x |-> x, a |-> y] : o \in {"iadd", "imul"}, x \in {"a", "c"}, y \in {A("a"), A("b"), Num(CI(1, 1))}}
Key1 == IF Shape0 = Sh0 THEN <<>> ELSE <<[s |-> TRUE, i |-> 0, j |-> 1], [s |-> TRUE, i |-> 0, j |-> 2]>>
Views == {[o |-> "tslice", x |-> "a", d |-> "c", key |-> Key1], [o |-> "imag", x |-> "a", d |-> "c"], [o |-> "real", x |-> "a", d |-> "c"],
          [o |-> "bget", x |-> "P", d |-> "c", k |-> "u"], [o |-> "bget", x |-> "P", d |-> "c", k |-> "d"]}
         \cup (IF Len(M0) = 2 THEN {[o |-> "mslice", x |-> "a", d |-> "c", key |-> <<1, -1>>]} ELSE {})
Other == {[o |-> "copy", x |-> "a", d |-> "c"], [o |-> "copy", x |-> "c", d |-> "b"], [o |-> "inverse", x |-> "a", d |-> "c"], [o |-> "invert", x |-> "c"],
          [o |-> "transp", x |-> "a", d |-> "c"], [o |-> "conj", x |-> "c", d |-> "c"], [o |-> "zero", x |-> "c"], [o |-> "lshift", x |-> "c", a |-> A("b")], [o |-> "lshift", x |-> "a", a |-> A("c")],
          [o |-> "lshift", x |-> "a", a |-> [a |-> "expr", e |-> [o |-> "-", l |-> Om, r |-> [o |-> "reg", r |-> "b"]]]], [o |-> "bcopy", x |-> "P", d |-> "P"],
          [o |-> "biadd", x |-> "P", a |-> [a |-> "blk", r |-> "P"]], [o |-> "bimul", x |-> "P", a |-> Num(CI(2, 0))], [o |-> "bneg", x |-> "P", d |-> "P"],
          [o |-> "bnew", d |-> "P", l |-> <<"c", "a">>, keys |-> <<"u", "d">>, copy |-> FALSE], [o |-> "bnew", d |-> "P", l |-> <<"c", "a">>, keys |-> <<"u", "d">>, copy |-> TRUE]}
Menu == Bin \cup Inp \cup Views \cup Other
IsGf(r) == S.regs[r].t = "gf"
Inv0(x) == Invertible(x) /\ ~x.real
Can(op) == /\ ("x" \in DOMAIN op => S.regs[op.x].t # "none")
           /\ ("a" \in DOMAIN op /\ op.a.a = "reg") => IsGf(op.a.r)
           /\ op.o = "bnew" => IsGf("c")
           /\ op.o \in {"inverse", "invert"} => Inv0(ValOf(S.heap, S.regs[op.x]))
           /\ op.o = "tslice" => Key1 # <<>>
           /\ op.o = "imag" => ~S.regs[op.x].real
           /\ op.o \in {"add", "sub", "mul", "iadd", "imul", "lshift"} => ~S.regs[op.x].real /\ (op.a.a = "reg" => ~S.regs[op.a.r].real)
           /\ op.o \in {"biadd", "bimul", "bneg", "bcopy"} => \A i \in 1..2 : ~S.regs["P"].gs[i].real
Init == S = S0 /\ n = 0 /\ last = [o |-> "none"]
Next == /\ n < MaxOps
        /\ \E op \in Menu : Can(op) /\ \E r \in {TLCEval(Step(S, op))} :
             /\ r.res = "ok" /\ \A i \in 1..Len(r.S.heap) : Small(r.S.heap[i], 30)
             /\ S' = r.S /\ n' = n + 1 /\ last' = op
Spec == Init /\ [][Next]_<<S, n, last>>
(* ------------------------------ guarantees ----------------------------- *)
Addr(r) == CASE r.t = "none" -> {} [] r.t = "gf" -> {r.cells[i][1] : i \in 1..Len(r.cells)} [] OTHER -> UNION {{r.gs[j].cells[i][1] : i \in 1..Len(r.gs[j].cells)} : j \in 1..Len(r.gs)}
InPlaceOps == {"iadd", "imul", "invert", "zero", "lshift", "biadd", "bimul"}
ViewOps == {"tslice", "mslice", "real", "imag", "bget"}
TypeOK == \A r \in Regs : LET g == S.regs[r] IN g.t = "gf" => /\ Len(g.cells) = MSize(g.mesh) * TSize(g.shape)
                                                          /\ \A i, j \in 1..Len(g.cells) : g.cells[i][1] = g.cells[j][1] => i = j
(* an operation writes only to the cells of its left operand, rebinds only its destination, and a new Gf shares nothing *)
Frame == [][LET op == last' IN
  /\ \A a \in 1..Len(S.heap) : S'.heap[a] # S.heap[a] => op.o \in InPlaceOps /\ a \in Addr(S.regs[op.x])
  /\ \A r \in Regs : S'.regs[r] # S.regs[r] => op.o \notin InPlaceOps /\ op.d = r
  /\ op.o \in InPlaceOps => Len(S'.heap) = Len(S.heap)
  /\ op.o \in ViewOps => Len(S'.heap) = Len(S.heap) /\ Addr(S'.regs[op.d]) \subseteq Addr(S.regs[op.x])
  /\ (op.o \notin InPlaceOps \cup ViewOps /\ ~(op.o = "bnew" /\ ~op.copy)) => \A i \in Addr(S'.regs[op.d]) : i > Len(S.heap)]_<<S, n, last>>
(* in place operations give what the operations out of place give *)
SameAsCopy == [][LET op == last' IN
  op.o \in {"iadd", "imul"} =>
    LET v == VBin(IF op.o = "iadd" THEN "add" ELSE "mul", ValOf(S.heap, S.regs[op.x]), Arg(S, op.a)) IN ValOf(S'.heap, S'.regs[op.x]).d = v.d]_<<S, n, last>>
(* the algebra of the values *)
GfV == {ValOf(S.heap, S.regs[r]) : r \in {q \in Regs : IsGf(q) /\ ~S.regs[q].real}}
Sq(x) == Len(x.shape) = 0 \/ Square(x.shape)
Ag(x) == [a |-> "gf", v |-> x]
Ok2(x) == \A i \in 1..Len(x.d) : ~IsBad(x.d[i])
Algebra == n <= MaxOps - 1 =>
  /\ \A x \in GfV : /\ VNeg(VNeg(x)) = x /\ Map1(Map1(x, CConj), CConj) = x
                    /\ Len(x.shape) = 2 => Transp(Transp(x)) = x
                    /\ (Sq(x) /\ Invertible(x)) => LET i == Inverse(x) u == VMulGf(x, i) IN (Ok2(i) /\ Ok2(u)) => u.d = ScalarVal(x.mesh, x.shape, COne).d
  /\ \A x, y \in GfV : x.mesh = y.mesh /\ x.shape = y.shape =>
       /\ VAddGf(x, y) = VAddGf(y, x)
       /\ LET q == VAddGf(x, y) IN Ok2(q) => LET p == VSub(q, Ag(y)) IN Ok2(p) => p = x
       /\ Square(x.shape) => LET l == Transp(VMulGf(x, y)) IN Ok2(l) => l = VMulGf(Transp(y), Transp(x))
  /\ n <= 1 => \A x, y, z \in GfV : (x.mesh = y.mesh /\ x.shape = y.shape /\ z.mesh = x.mesh /\ z.shape = x.shape /\ Sq(x)) =>
       LET q == VAddGf(x, y) l == VMulGf(q, z) r == VAddGf(VMulGf(x, z), VMulGf(y, z)) IN (Ok2(q) /\ Ok2(l) /\ Ok2(r)) => l = r
===============================================================================
