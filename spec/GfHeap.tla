------------------------------- MODULE GfHeap ---------------------------------
(***************************************************************************)
(* The Python Green's function layer: containers that own or share data.   *)
(*                                                                         *)
(* The data of all containers live in a heap of Gaussian rationals.  A Gf  *)
(* is a mesh, a target shape and a sequence of cells (mesh major, target   *)
(* in C order), a cell being an address together with the part of the      *)
(* number it shows ("c" whole number, "r" real part, "i" imaginary part).  *)
(* Views share addresses with the Gf they were taken from, copies and the  *)
(* results of arithmetic own fresh ones.  A block Gf is a sequence of keys *)
(* and of Gfs.  Step gives the outcome of every operation; "ref" is an     *)
(* operation that has to be refused and changes nothing.                   *)
(***************************************************************************)
EXTENDS GaussRat

(* ------------------------- meshes and shapes --------------------------- *)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
CompLen(m) == [i \in 1..Len(m) |-> Len(m[i].v)]
MSize(m) == Prod(CompLen(m))
TSize(sh) == Prod(sh)
FreqD(m) == Len(m) = 1 /\ m[1].k \in {"ImFreq", "ReFreq", "DLRImFreq"}  \* where initialisers and constants make sense
Freq(m) == Len(m) = 1 /\ m[1].k \in {"ImFreq", "ReFreq"}

(* the position (0-based) of a multi-index in an array of the given lengths *)
RECURSIVE Pos(_, _)
Pos(ls, is) == IF ls = <<>> THEN 0 ELSE is[1] * Prod(Tail(ls)) + Pos(Tail(ls), Tail(is))
RECURSIVE MIdx(_, _)
MIdx(ls, n) == IF ls = <<>> THEN <<>> ELSE LET r == Prod(Tail(ls)) IN <<n \div r>> \o MIdx(Tail(ls), n % r)

(* ------------------------------- values -------------------------------- *)
(* The value of a Gf: [mesh, shape, real, d]. *)
Rd(h, c) == CASE c[2] = "c" -> h[c[1]] [] c[2] = "r" -> <<h[c[1]][1], RZero>> [] OTHER -> <<h[c[1]][2], RZero>>
ValOf(h, g) == [mesh |-> g.mesh, shape |-> g.shape, real |-> g.real, d |-> TLCEval([i \in 1..Len(g.cells) |-> Rd(h, g.cells[i])])]
Map1(x, F(_)) == [x EXCEPT !.d = TLCEval([i \in 1..Len(x.d) |-> F(x.d[i])])]
Ent(x, p, t) == x.d[p * TSize(x.shape) + t + 1]
Mk(mesh, shape, real, F(_, _)) == [mesh |-> mesh, shape |-> shape, real |-> real,
     d |-> TLCEval([i \in 1..(MSize(mesh) * TSize(shape)) |-> F((i - 1) \div TSize(shape), (i - 1) % TSize(shape))])]
RECURSIVE CSum(_, _)
CSum(f, n) == IF n = 0 THEN CZero ELSE CAdd(f[n], CSum(f, n - 1))

Square(sh) == Len(sh) = 2 /\ sh[1] = sh[2]
Diag(sh, t) == Len(sh) = 0 \/ (t \div sh[2]) = (t % sh[2])
ScalarVal(mesh, sh, z) == Mk(mesh, sh, FALSE, LAMBDA p, t : IF Diag(sh, t) THEN z ELSE CZero)
MatVal(mesh, mat) == Mk(mesh, mat.sh, \A i \in 1..Len(mat.d) : CIsReal(mat.d[i]), LAMBDA p, t : mat.d[t + 1])
OmegaVal(mesh, sh) == Mk(mesh, sh, FALSE, LAMBDA p, t : IF Diag(sh, t) THEN mesh[1].v[p + 1] ELSE CZero)
MatMul(x, y, mesh) ==
  LET n == x.shape[1] k == x.shape[2] m == y.shape[2]
  IN Mk(mesh, <<n, m>>, x.real /\ y.real,
        LAMBDA p, t : CSum([q \in 1..k |-> CMul(Ent(x, p, (t \div m) * k + q - 1), Ent(y, p, (q - 1) * m + (t % m)))], k))
Transp(x) == Mk(x.mesh, <<x.shape[2], x.shape[1]>>, x.real, LAMBDA p, t : Ent(x, p, (t % x.shape[1]) * x.shape[2] + (t \div x.shape[1])))

Det(x, p) == IF TSize(x.shape) = 1 THEN Ent(x, p, 0)
             ELSE CSub(CMul(Ent(x, p, 0), Ent(x, p, 3)), CMul(Ent(x, p, 1), Ent(x, p, 2)))
Invertible(x) == /\ x.shape \in {<<>>, <<1, 1>>, <<2, 2>>}
                 /\ \A p \in 0..(MSize(x.mesh) - 1) : ~CIsZero(Det(x, p))
Inverse(x) ==
  IF TSize(x.shape) = 1 THEN Map1(x, CInv)
  ELSE Mk(x.mesh, x.shape, x.real, LAMBDA p, t :
         LET i == CInv(Det(x, p)) IN CMul(i, CASE t = 0 -> Ent(x, p, 3) [] t = 3 -> Ent(x, p, 0) [] OTHER -> CNeg(Ent(x, p, t))))

(* ---------------------- binary operations on values -------------------- *)
ErrV == [err |-> TRUE]
IsErr(x) == "err" \in DOMAIN x
(* product of meshes: the statistics of imaginary times combine *)
CombComp(a, b) == IF a.k = "ImTime" THEN [a EXCEPT !.st = IF a.st = b.st THEN "B" ELSE "F"] ELSE a
MeshCompat(a, b) == /\ Len(a) = Len(b)
                    /\ \A i \in 1..Len(a) : IF a[i].k = "ImTime" THEN a[i].k = b[i].k /\ a[i].v = b[i].v ELSE a[i] = b[i]
CombMesh(a, b) == [i \in 1..Len(a) |-> CombComp(a[i], b[i])]

VAddGf(x, y) == IF x.mesh # y.mesh \/ x.shape # y.shape THEN ErrV
                ELSE [x EXCEPT !.d = TLCEval([i \in 1..Len(x.d) |-> CAdd(x.d[i], y.d[i])]), !.real = x.real /\ y.real]
VNeg(x) == Map1(x, CNeg)
VScale(x, z) == [Map1(x, LAMBDA c : CMul(c, z)) EXCEPT !.real = x.real /\ CIsReal(z)]
VMulGf(x, y) ==
  IF ~MeshCompat(x.mesh, y.mesh) THEN ErrV
  ELSE LET m == CombMesh(x.mesh, y.mesh) IN
       CASE Len(x.shape) = 2 /\ Len(y.shape) = 2 -> IF x.shape[2] # y.shape[1] THEN ErrV ELSE MatMul(x, y, m)
         [] Len(x.shape) = 0 /\ Len(y.shape) \in {0, 2} -> Mk(m, y.shape, x.real /\ y.real, LAMBDA p, t : CMul(Ent(x, p, 0), Ent(y, p, t)))
         [] Len(x.shape) = 2 /\ Len(y.shape) = 0 -> Mk(m, x.shape, x.real /\ y.real, LAMBDA p, t : CMul(Ent(x, p, t), Ent(y, p, 0)))
         [] OTHER -> ErrV
(* arguments: [a |-> "gf", v], [a |-> "num", z], [a |-> "mat", sh, d] *)
VAdd(x, y) == CASE y.a = "gf" -> VAddGf(x, y.v)
                [] y.a = "num" -> IF Len(x.shape) = 0 \/ (Square(x.shape) /\ Freq(x.mesh))
                                  THEN [VAddGf(x, ScalarVal(x.mesh, x.shape, y.z)) EXCEPT !.real = x.real /\ CIsReal(y.z)] ELSE ErrV
                [] OTHER -> IF x.shape = y.sh /\ Freq(x.mesh) THEN VAddGf(x, MatVal(x.mesh, y)) ELSE ErrV
ANeg(y) == CASE y.a = "gf" -> [y EXCEPT !.v = VNeg(y.v)]
             [] y.a = "num" -> [y EXCEPT !.z = CNeg(y.z)]
             [] OTHER -> [y EXCEPT !.d = [i \in 1..Len(y.d) |-> CNeg(y.d[i])]]
VSub(x, y) == VAdd(x, ANeg(y))
VMul(x, y) == CASE y.a = "gf" -> VMulGf(x, y.v)
                [] y.a = "num" -> VScale(x, y.z)
                [] OTHER -> IF Len(x.shape) = 2 /\ x.shape[2] = y.sh[1] THEN MatMul(x, MatVal(x.mesh, y), x.mesh) ELSE ErrV
VRMul(y, x) == IF y.a = "num" THEN VScale(x, y.z)
               ELSE IF Len(x.shape) = 2 /\ y.sh[2] = x.shape[1] THEN MatMul(MatVal(x.mesh, y), x, x.mesh) ELSE ErrV
VDiv(x, y) == IF y.a = "num" THEN VScale(x, CInv(y.z)) ELSE ErrV
VBin(o, x, y) == CASE o = "add" -> VAdd(x, y) [] o = "sub" -> VSub(x, y) [] o = "mul" -> VMul(x, y) [] OTHER -> VDiv(x, y)
VRBin(o, y, x) == CASE o = "add" -> VAdd(x, y)
                    [] o = "sub" -> VAdd(VNeg(x), y)
                    [] OTHER -> VRMul(y, x)

(* --------------------------- lazy expressions -------------------------- *)
(* An expression stands for a function on the mesh and the shape of the Gf *)
(* it is assigned to: a number is that multiple of the unit matrix, om the *)
(* frequency times the unit matrix.                                        *)
ToGf(x, y) == IF y.a = "gf" THEN y ELSE IF (Len(x.shape) = 0 \/ Square(x.shape)) /\ FreqD(x.mesh)
              THEN [a |-> "gf", v |-> ScalarVal(x.mesh, x.shape, y.z)] ELSE [a |-> "err"]
GfA(v) == IF IsErr(v) THEN [a |-> "err"] ELSE [a |-> "gf", v |-> v]
RECURSIVE Eval(_, _, _)
Eval(S, x, e) ==
  CASE e.o = "reg" -> [a |-> "gf", v |-> ValOf(S.heap, S.regs[e.r])]
    [] e.o = "num" -> [a |-> "num", z |-> e.z]
    [] e.o = "val" -> GfA(e.v)
    [] e.o = "om" -> IF FreqD(x.mesh) /\ (Len(x.shape) = 0 \/ Square(x.shape)) THEN [a |-> "gf", v |-> OmegaVal(x.mesh, x.shape)] ELSE [a |-> "err"]
    [] e.o \in {"inv", "conj", "tr"} ->
         LET l == Eval(S, x, e.l) IN
         IF l.a = "undef" THEN l ELSE IF l.a # "gf" THEN [a |-> "err"]
         ELSE CASE e.o = "inv" -> IF Invertible(l.v) THEN GfA(Inverse(l.v)) ELSE [a |-> "undef"]
                [] e.o = "conj" -> GfA(Map1(l.v, CConj))
                [] OTHER -> IF Len(l.v.shape) = 2 THEN GfA(Transp(l.v)) ELSE [a |-> "err"]
    [] OTHER ->
         LET l == Eval(S, x, e.l) r == Eval(S, x, e.r) IN
         IF l.a \in {"err", "undef"} THEN l ELSE IF r.a \in {"err", "undef"} THEN r
         ELSE IF e.o \in {"+", "-"} THEN
           LET lg == ToGf(x, l) rg == ToGf(x, r) IN
           IF lg.a = "err" \/ rg.a = "err" THEN [a |-> "err"] ELSE GfA(IF e.o = "+" THEN VAdd(lg.v, rg) ELSE VSub(lg.v, rg))
         ELSE IF e.o = "*" THEN IF l.a = "gf" THEN GfA(VMul(l.v, r)) ELSE IF r.a = "gf" THEN GfA(VRMul(l, r.v)) ELSE [a |-> "err"]
         ELSE IF l.a = "gf" /\ r.a = "num" THEN GfA(VDiv(l.v, r)) ELSE [a |-> "err"]

(* ------------------------------ the heap ------------------------------- *)
(* S = [heap, regs]: Alloc gives a Gf with fresh cells, Write stores values *)
Alloc(S, v) == LET n == Len(S.heap) IN
  [S |-> [S EXCEPT !.heap = TLCEval(@ \o v.d)],
   g |-> [t |-> "gf", mesh |-> v.mesh, shape |-> v.shape, real |-> v.real, cells |-> [i \in 1..Len(v.d) |-> <<n + i, "c">>]]]
WrCell(old, part, z) == CASE part = "c" -> z [] part = "r" -> <<z[1], old[2]>> [] OTHER -> <<old[1], z[1]>>
(* the cells of one Gf have different addresses *)
Write(S, g, d) == [S EXCEPT !.heap = TLCEval([a \in 1..Len(@) |->
     LET ks == {k \in 1..Len(d) : g.cells[k][1] = a} IN IF ks = {} THEN @[a] ELSE LET k == CHOOSE k \in ks : TRUE IN WrCell(@[a], g.cells[k][2], d[k])])]

Ref(S) == [res |-> "ref", S |-> S]
Ok(S) == [res |-> "ok", S |-> S]
Bind(S, r, v) == IF IsErr(v) THEN Ref(S) ELSE LET a == Alloc(S, v) IN Ok([a.S EXCEPT !.regs[r] = a.g])
View(S, r, g) == Ok([S EXCEPT !.regs[r] = g])
(* storing v in the Gf g in place *)
Store(S, g, v) == IF IsErr(v) \/ v.shape # g.shape \/ v.mesh # g.mesh THEN Ref(S)
                  ELSE IF g.real /\ ~v.real THEN Ref(S) ELSE Ok(Write(S, g, v.d))

Arg(S, a) == IF a.a = "reg" THEN [a |-> "gf", v |-> ValOf(S.heap, S.regs[a.r])] ELSE a
(* g << a *)
Assign(S, g, a) ==
  LET x == ValOf(S.heap, g) IN
  CASE a.a = "reg" -> Store(S, g, ValOf(S.heap, S.regs[a.r]))
    [] a.a = "num" -> LET y == ToGf(x, a) IN IF y.a = "err" THEN Ref(S) ELSE Store(S, g, y.v)
    [] a.a = "mat" -> IF FreqD(x.mesh) /\ a.sh = x.shape THEN Store(S, g, MatVal(x.mesh, a)) ELSE Ref(S)
    [] OTHER -> LET y == Eval(S, x, a.e) IN
                IF y.a = "undef" THEN [res |-> "undef", S |-> S]
                ELSE LET z == IF y.a = "num" THEN ToGf(x, y) ELSE y IN IF z.a = "err" THEN Ref(S) ELSE Store(S, g, z.v)

(* ------------------------------- slices -------------------------------- *)
(* target slice: key is a sequence of [s |-> FALSE, i] or [s |-> TRUE, i, j] (i inclusive, j exclusive) *)
KLen(k) == k.j - k.i
TSlice(g, key) ==
  IF Len(key) # Len(g.shape) \/ (\E i \in 1..Len(key) : key[i].s # key[1].s) THEN [t |-> "err"]
  ELSE LET sh == IF key[1].s THEN [i \in 1..Len(key) |-> KLen(key[i])] ELSE <<>>
           ts == TSize(sh)
           src(p, t) == LET mi == MIdx(sh, t)
                            ix == [i \in 1..Len(key) |-> IF key[i].s THEN key[i].i + mi[i] ELSE key[i].i]
                        IN g.cells[p * TSize(g.shape) + Pos(g.shape, ix) + 1]
       IN [g EXCEPT !.shape = sh, !.cells = TLCEval([n \in 1..(MSize(g.mesh) * ts) |-> src((n - 1) \div ts, (n - 1) % ts)])]
(* mesh slice: key[i] is a point (0-based) or -1 for all points; at least one of each *)
Kept(key) == SelectSeq([i \in 1..Len(key) |-> i], LAMBDA i : key[i] = -1)
MSlice(g, key) ==
  LET kp == Kept(key)
      mesh == [i \in 1..Len(kp) |-> g.mesh[kp[i]]]
      ts == TSize(g.shape)
      ls == CompLen(mesh)
      where(i) == CHOOSE j \in 1..Len(kp) : kp[j] = i
      src(p, t) == LET mi == MIdx(ls, p)
                       full == [i \in 1..Len(key) |-> IF key[i] = -1 THEN mi[where(i)] ELSE key[i]]
                   IN g.cells[Pos(CompLen(g.mesh), full) * ts + t + 1]
  IN [g EXCEPT !.mesh = mesh, !.cells = TLCEval([n \in 1..(MSize(mesh) * ts) |-> src((n - 1) \div ts, (n - 1) % ts)])]
PtCells(g, key) == LET p == Pos(CompLen(g.mesh), key) ts == TSize(g.shape) IN SubSeq(g.cells, p * ts + 1, p * ts + ts)

(* ------------------------------ operations ----------------------------- *)
InPlace(S, g, o, a) ==
  LET x == ValOf(S.heap, g)
      y == Arg(S, a)
      v == VBin(o, x, y)
  IN IF o = "mul" /\ y.a = "gf" /\ y.v.mesh # x.mesh THEN Ref(S) ELSE IF IsErr(v) THEN Ref(S) ELSE Store(S, g, [v EXCEPT !.mesh = x.mesh])

GfStep(S, op) ==
  LET g == S.regs[op.x]
      x == ValOf(S.heap, g)
  IN CASE op.o \in {"copy", "pickle"} -> Bind(S, op.d, x)
       [] op.o \in {"add", "sub", "mul", "div"} -> Bind(S, op.d, VBin(op.o, x, Arg(S, op.a)))
       [] op.o \in {"radd", "rsub", "rmul"} -> Bind(S, op.d, VRBin(CASE op.o = "radd" -> "add" [] op.o = "rsub" -> "sub" [] OTHER -> "mul", op.a, x))
       [] op.o \in {"iadd", "isub", "imul", "idiv"} -> InPlace(S, g, CASE op.o = "iadd" -> "add" [] op.o = "isub" -> "sub" [] op.o = "imul" -> "mul" [] OTHER -> "div", op.a)
       [] op.o = "neg" -> Bind(S, op.d, VNeg(x))
       [] op.o = "conj" -> Bind(S, op.d, Map1(x, CConj))
       [] op.o = "transp" -> IF Len(x.shape) = 2 /\ Len(x.mesh) = 1 THEN Bind(S, op.d, Transp(x)) ELSE Ref(S)
       [] op.o = "inverse" -> Bind(S, op.d, Inverse(x))
       [] op.o = "invert" -> Store(S, g, Inverse(x))
       [] op.o = "real" -> View(S, op.d, [g EXCEPT !.real = TRUE, !.cells = [i \in 1..Len(g.cells) |-> IF g.cells[i][2] = "c" THEN <<g.cells[i][1], "r">> ELSE g.cells[i]]])
       [] op.o = "imag" -> View(S, op.d, [g EXCEPT !.real = TRUE, !.cells = [i \in 1..Len(g.cells) |-> <<g.cells[i][1], "i">>]])
       [] op.o = "tslice" -> LET v == TSlice(g, op.key) IN IF v.t = "err" THEN Ref(S) ELSE View(S, op.d, v)
       [] op.o = "mslice" -> View(S, op.d, MSlice(g, op.key))
       [] op.o = "getpt" -> Ok(S)
       [] op.o = "setpt" -> LET c == PtCells(g, op.key) IN Ok(Write(S, [cells |-> c], op.dat))
       [] op.o = "setpte" -> LET c == PtCells(g, op.key) IN Ok(Write(S, [cells |-> <<c[op.t + 1]>>], op.dat))
       [] op.o = "setdata" -> Ok(Write(S, g, op.dat))
       [] op.o = "lshift" -> Assign(S, g, op.a)
       [] op.o = "setsl" -> LET v == TSlice(g, op.key) IN IF v.t = "err" THEN Ref(S) ELSE Assign(S, v, op.a)
       [] op.o = "copyfrom" -> Store(S, g, ValOf(S.heap, S.regs[op.y]))
       [] op.o = "zero" -> Ok(Write(S, g, [i \in 1..Len(g.cells) |-> CZero]))
       [] op.o = "evalx" -> LET y == Eval(S, x, op.e) IN IF y.a = "undef" THEN [res |-> "undef", S |-> S] ELSE IF y.a # "gf" THEN Ref(S) ELSE Bind(S, op.d, y.v)
       [] op.o = "dyson" -> (* op.w is the unknown, x and y the known ones in the order G0, G, Sigma *)
            LET X == [o |-> "reg", r |-> op.x] Y == [o |-> "reg", r |-> op.y] Inv(e) == [o |-> "inv", l |-> e]
                e == CASE op.w = "G0" -> Inv([o |-> "+", l |-> Y, r |-> Inv(X)])
                       [] op.w = "G" -> Inv([o |-> "-", l |-> Inv(X), r |-> Y])
                       [] OTHER -> [o |-> "-", l |-> Inv(X), r |-> Inv(Y)]
                v == Eval(S, x, e)
            IN IF v.a = "undef" THEN [res |-> "undef", S |-> S] ELSE IF v.a # "gf" THEN Ref(S) ELSE Bind(S, op.d, v.v)
       [] op.o = "func" -> (* Function: M (c0 + c1 z + c2 z^2) at the mesh point z *)
            IF Len(x.mesh) # 1 THEN Ref(S)
            ELSE Store(S, g, Mk(x.mesh, x.shape, FALSE, LAMBDA p, t : LET z == x.mesh[1].v[p + 1] IN
                   CMul(op.m[t + 1], CAdd(op.c[1], CMul(z, CAdd(op.c[2], CMul(z, op.c[3])))))))
       [] op.o = "semi" -> (* SemiCircular(D, mu): at z + mu = D (t + 1/t) / 2 with |t| > 1, or |t| = 1 and Im t > 0, it is 2/(D t) *)
            IF ~FreqD(x.mesh) THEN Ref(S)
            ELSE Store(S, g, Mk(x.mesh, x.shape, FALSE, LAMBDA p, t : IF Diag(x.shape, t) THEN CInv(CMul(<<RDivI(op.D, 2), RZero>>, op.ts[p + 1])) ELSE CZero))
       [] op.o \in {"flat", "expt"} -> Ok(Write(S, g, [i \in 1..Len(g.cells) |-> CZero]))
       [] OTHER -> (* lgr: x.from_L_G_R(L, y, R) *)
            LET y == ValOf(S.heap, S.regs[op.y])
                l == VRMul(op.l, y)
            IN IF IsErr(l) THEN Ref(S) ELSE LET v == VMul(l, op.r) IN Store(S, g, IF IsErr(v) THEN v ELSE [v EXCEPT !.real = x.real])

(* make_delta: sum_j V_kj V_lj^* / (z - eps_j) *)
MkDelta(S, op) == Bind(S, op.d, LET n == Len(op.V) IN Mk(op.mesh, <<n, n>>, FALSE, LAMBDA p, t :
     CSum([j \in 1..Len(op.eps) |-> CMul(CMul(op.V[(t \div n) + 1][j], CConj(op.V[(t % n) + 1][j])), CInv(CSub(op.mesh[1].v[p + 1], <<op.eps[j], RZero>>)))], Len(op.eps))))
(* Flat(D): exp(-2 D g) = (z - D)/(z + D) on the diagonal *)
FlatVal(x, op) == [i \in 1..Len(x.d) |-> LET p == (i - 1) \div TSize(x.shape) z == x.mesh[1].v[p + 1] D == <<op.D, RZero>> IN
     IF Diag(x.shape, (i - 1) % TSize(x.shape)) THEN CMul(CSub(z, D), CInv(CAdd(z, D))) ELSE COne]
SemiOk(x, op) == \A p \in 1..Len(op.ts) : /\ CAdd(x.mesh[1].v[p], <<op.mu, RZero>>) = CMul(<<RDivI(op.D, 2), RZero>>, CAdd(op.ts[p], CInv(op.ts[p])))
                                           /\ LET n == CNorm(op.ts[p]) IN n[1] > n[2] \/ (n = <<1, 1>> /\ op.ts[p][2][1] > 0)
(* the value read by getpt *)
PtVal(S, op) == LET c == PtCells(S.regs[op.x], op.key) IN [i \in 1..Len(c) |-> Rd(S.heap, c[i])]

(* -------------------------------- blocks ------------------------------- *)
(* [t |-> "blk", keys, gs] (BlockGf) and [t |-> "blk2", n1, n2, keys, gs] (Block2Gf, keys "a,b" row by row) *)
HasKey(b, k) == \E i \in 1..Len(b.keys) : b.keys[i] = k
At2(b, k) == b.gs[CHOOSE i \in 1..Len(b.keys) : b.keys[i] = k]
RECURSIVE AllocAll(_, _, _)
AllocAll(S, vs, n) == IF n = 0 THEN [S |-> S, gs |-> <<>>]
  ELSE LET p == AllocAll(S, vs, n - 1) a == Alloc(p.S, vs[n]) IN [S |-> a.S, gs |-> Append(p.gs, a.g)]
BindB(S, r, b, vs) == IF \E i \in 1..Len(vs) : IsErr(vs[i]) THEN Ref(S)
                      ELSE LET a == AllocAll(S, vs, Len(vs)) IN Ok([a.S EXCEPT !.regs[r] = [b EXCEPT !.gs = a.gs]])
BVals(S, b) == [i \in 1..Len(b.gs) |-> ValOf(S.heap, b.gs[i])]
(* the argument of a block operation for block i with key k *)
BHas(S, b, a) == IF a.a = "blk" THEN LET c == S.regs[a.r] IN c.t = b.t /\ \A i \in 1..Len(b.keys) : HasKey(c, b.keys[i])
                 ELSE IF a.a = "list" THEN Len(a.l) = Len(b.keys) ELSE TRUE
BArg(S, b, a, i) == IF a.a = "blk" THEN [a |-> "gf", v |-> ValOf(S.heap, At2(S.regs[a.r], b.keys[i]))]
                    ELSE IF a.a = "list" THEN Arg(S, a.l[i]) ELSE Arg(S, a)
Sym(o) == CASE o = "add" -> "+" [] o = "sub" -> "-" [] OTHER -> "*"
(* in place operations go block by block, in order *)
RECURSIVE BInPlace(_, _, _, _, _)
BInPlace(S, b, o, a, n) ==
  IF n = 0 THEN Ok(S)
  ELSE LET p == BInPlace(S, b, o, a, n - 1) IN
       IF p.res # "ok" THEN p
       ELSE LET g == b.gs[n]
                x == ValOf(p.S.heap, g)
            IN CASE o = "lshift" -> IF a.a = "blk" THEN Store(p.S, g, BArg(p.S, b, a, n).v) ELSE IF a.a = "list" THEN Ok(Write(p.S, g, a.l[n].d)) ELSE Assign(p.S, g, a)
                 [] o = "zero" -> Ok(Write(p.S, g, [i \in 1..Len(g.cells) |-> CZero]))
                 [] o = "invert" -> Store(p.S, g, Inverse(x))
                 [] a.a = "expr" -> (* in place operation with a lazy expression *)
                      Assign(p.S, g, [a |-> "expr", e |-> [o |-> Sym(o), l |-> [o |-> "val", v |-> x], r |-> a.e]])
                 [] OTHER -> LET y == BArg(p.S, b, a, n) v == VBin(o, x, y)
                             IN IF IsErr(v) THEN Ref(p.S)
                                ELSE IF o = "mul" /\ y.a = "gf" /\ y.v.mesh # x.mesh THEN Ref(p.S) ELSE Store(p.S, g, [v EXCEPT !.mesh = x.mesh])
WholeOrNot(S, r) == IF r.res = "ref" THEN Ref(S) ELSE r
SelB(b, ks) == [t |-> "blk", keys |-> SelectSeq(b.keys, LAMBDA k : \E i \in 1..Len(ks) : ks[i] = k),
                gs |-> LET ix == SelectSeq([i \in 1..Len(b.keys) |-> i], LAMBDA j : \E i \in 1..Len(ks) : ks[i] = b.keys[j]) IN [i \in 1..Len(ix) |-> b.gs[ix[i]]]]
Key2(a, b) == a \o "," \o b
Keys2(n1, n2) == [i \in 1..(Len(n1) * Len(n2)) |-> Key2(n1[((i - 1) \div Len(n2)) + 1], n2[((i - 1) % Len(n2)) + 1])]
Chosen(n, k) == SelectSeq(n, LAMBDA a : \E i \in 1..Len(k) : k[i] = a)
SelB2(b, k1, k2) == LET c1 == Chosen(b.n1, k1) c2 == Chosen(b.n2, k2) ks == Keys2(c1, c2) IN [t |-> "blk2", n1 |-> c1, n2 |-> c2, keys |-> ks, gs |-> [i \in 1..Len(ks) |-> At2(b, ks[i])]]

BlkStep(S, op) ==
  CASE op.o = "bnew" ->
         LET b == [t |-> "blk", keys |-> op.keys, gs |-> [i \in 1..Len(op.l) |-> S.regs[op.l[i]]]]
         IN IF Len(op.keys) # Len(op.l) \/ (\E i, j \in 1..Len(op.keys) : i # j /\ op.keys[i] = op.keys[j]) THEN Ref(S)
            ELSE IF op.copy THEN BindB(S, op.d, b, BVals(S, b)) ELSE View(S, op.d, b)
    [] op.o = "b2new" ->
         LET b == [t |-> "blk2", n1 |-> op.n1, n2 |-> op.n2, keys |-> Keys2(op.n1, op.n2), gs |-> [i \in 1..Len(op.l) |-> S.regs[op.l[i]]]]
         IN IF Len(b.keys) # Len(op.l) THEN Ref(S) ELSE IF op.copy THEN BindB(S, op.d, b, BVals(S, b)) ELSE View(S, op.d, b)
    [] op.o = "bstruct" ->
         BindB(S, op.d, [t |-> "blk", keys |-> op.keys, gs |-> <<>>],
               [i \in 1..Len(op.keys) |-> Mk(op.mesh, [q \in 1..(IF op.sizes[i] = 0 THEN 0 ELSE op.rank) |-> op.sizes[i]], FALSE, LAMBDA p, t : CZero)])
    [] OTHER ->
       LET b == S.regs[op.x] IN
       CASE op.o = "bget" -> IF HasKey(b, op.k) THEN View(S, op.d, At2(b, op.k)) ELSE Ref(S)
         [] op.o = "bset" -> IF HasKey(b, op.k) THEN Assign(S, At2(b, op.k), op.a) ELSE Ref(S)
         [] op.o \in {"bcopy", "bpickle"} -> BindB(S, op.d, b, BVals(S, b))
         [] op.o = "bsel" -> IF \E i \in 1..Len(op.keys) : ~HasKey(b, op.keys[i]) THEN Ref(S)
                             ELSE LET c == SelB(b, op.keys) IN IF op.copy THEN BindB(S, op.d, c, BVals(S, c)) ELSE View(S, op.d, c)
         [] op.o = "b2sel" -> LET c == SelB2(b, op.n1, op.n2) IN IF op.copy THEN BindB(S, op.d, c, BVals(S, c)) ELSE View(S, op.d, c)
         [] op.o \in {"breal", "bimag"} ->
              View(S, op.d, [b EXCEPT !.gs = [i \in 1..Len(b.gs) |-> LET g == b.gs[i] IN
                 [g EXCEPT !.real = TRUE, !.cells = [n \in 1..Len(g.cells) |-> <<g.cells[n][1], IF op.o = "breal" THEN "r" ELSE "i">>]]]])
         [] op.o \in {"binverse", "btransp", "bconj", "bneg", "bmapneg"} ->
              BindB(S, op.d, b, [i \in 1..Len(b.gs) |-> LET x == ValOf(S.heap, b.gs[i]) IN
                 CASE op.o = "binverse" -> Inverse(x) [] op.o = "btransp" -> Transp(x) [] op.o = "bconj" -> Map1(x, CConj) [] OTHER -> VNeg(x)])
         [] op.o \in {"badd", "bsub", "bmul", "bdiv"} ->
              IF ~BHas(S, b, op.a) THEN Ref(S)
              ELSE LET o == CASE op.o = "badd" -> "add" [] op.o = "bsub" -> "sub" [] op.o = "bmul" -> "mul" [] OTHER -> "div" IN
                   IF op.a.a = "expr" THEN
                     LET ev == [i \in 1..Len(b.gs) |-> LET x == ValOf(S.heap, b.gs[i]) IN
                                  Eval(S, x, [o |-> Sym(o), l |-> [o |-> "val", v |-> x], r |-> op.a.e])] IN
                     IF \E i \in 1..Len(ev) : ev[i].a = "undef" THEN [res |-> "undef", S |-> S] ELSE IF \E i \in 1..Len(ev) : ev[i].a # "gf" THEN Ref(S) ELSE BindB(S, op.d, b, [i \in 1..Len(ev) |-> ev[i].v])
                   ELSE BindB(S, op.d, b, [i \in 1..Len(b.gs) |-> VBin(o, ValOf(S.heap, b.gs[i]), BArg(S, b, op.a, i))])
         [] op.o \in {"bradd", "brsub", "brmul"} ->
              BindB(S, op.d, b, [i \in 1..Len(b.gs) |-> VRBin(CASE op.o = "bradd" -> "add" [] op.o = "brsub" -> "sub" [] OTHER -> "mul", op.a, ValOf(S.heap, b.gs[i]))])
         [] op.o \in {"biadd", "bisub", "bimul", "bidiv", "blshift", "bzero", "binvert"} ->
              IF op.o \notin {"bzero", "binvert"} /\ ~BHas(S, b, op.a) THEN Ref(S)
              ELSE WholeOrNot(S, BInPlace(S, b, CASE op.o = "biadd" -> "add" [] op.o = "bisub" -> "sub" [] op.o = "bimul" -> "mul" [] op.o = "bidiv" -> "div"
                                          [] op.o = "blshift" -> "lshift" [] op.o = "bzero" -> "zero" [] OTHER -> "invert",
                                          IF op.o \in {"bzero", "binvert"} THEN [a |-> "none"] ELSE op.a, Len(b.gs)))
         [] op.o = "bfourier" -> (* transform of all blocks; the stand-in for the transformation doubles the data *)
              LET c == S.regs[op.y] IN WholeOrNot(S, BInPlace(S, b, "lshift", [a |-> "list", l |-> [i \in 1..Len(c.gs) |-> VScale(ValOf(S.heap, c.gs[i]), CI(2, 0))]], Len(b.gs)))
         [] OTHER -> (* bcopyfrom *) WholeOrNot(S, BInPlace(S, b, "lshift", [a |-> "blk", r |-> op.y], Len(b.gs)))

Step(S, op) == IF op.o = "mkdelta" THEN MkDelta(S, op) ELSE IF op.o = "new" THEN Bind(S, op.d, [mesh |-> op.mesh, shape |-> op.shape, real |-> op.real, d |-> op.dat])
               ELSE IF op.o \in {"bnew", "b2new", "bstruct", "bget", "bset", "bcopy", "bpickle", "bsel", "b2sel", "breal", "bimag", "binverse", "btransp", "bconj", "bneg",
                                 "bmapneg", "badd", "bsub", "bmul", "bdiv", "bradd", "brsub", "brmul", "biadd", "bisub", "bimul", "bidiv", "blshift", "bzero", "binvert", "bcopyfrom", "bfourier"}
                    THEN BlkStep(S, op) ELSE GfStep(S, op)

(* the element indices of all blocks *)
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flatten(Tail(ss))
IdxStr(ix) == IF Len(ix) = 0 THEN "" ELSE IF Len(ix) = 1 THEN "," \o ToString(ix[1]) ELSE "," \o ToString(ix[1]) \o "," \o ToString(ix[2])
AllIdx(b) == Flatten([i \in 1..Len(b.keys) |-> [t \in 1..TSize(b.gs[i].shape) |-> b.keys[i] \o IdxStr(MIdx(b.gs[i].shape, t - 1))]])
(* what is observed of a register *)
Obs(S, r) == CASE r.t = "none" -> [t |-> "none"]
               [] r.t = "gf" -> [t |-> "gf", v |-> ValOf(S.heap, r)]
               [] r.t = "blk" -> [t |-> "blk", keys |-> r.keys, ai |-> AllIdx(r), vs |-> BVals(S, r)]
               [] OTHER -> [t |-> "blk2", n1 |-> r.n1, n2 |-> r.n2, keys |-> r.keys, ai |-> AllIdx(r), vs |-> BVals(S, r)]
===============================================================================
