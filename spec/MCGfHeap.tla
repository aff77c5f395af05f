------------------------------- MODULE MCGfHeap -------------------------------
(* Behaviours of GfHeap: random programs (simulation), and every short program over a small menu (exhaustive). *)
EXTENDS GfHeap, Json
CONSTANTS Kinds,      \* the operations to draw from
          MaxOps, Bound
VARIABLES S, opj, n
GN == <<"a", "b", "c", "d", "e">>
BN == <<"P", "Q", "R">>
Names == {GN[i] : i \in 1..Len(GN)} \cup {BN[i] : i \in 1..Len(BN)}
Comp(k, st, v) == [k |-> k, st |-> st, v |-> v]
Half == <<<<1, 2>>, RZero>>
FA == Comp("ImFreq", "F", <<CI(0, -1), CI(0, 1)>>)
FB == Comp("ImFreq", "F", <<CI(0, -3), CI(0, 3)>>)
RA == Comp("ReFreq", "", <<CI(-1, 0), Half>>)
DA == Comp("DLRImFreq", "F", <<CI(0, -1), CI(0, 2)>>)
TF == Comp("ImTime", "F", <<CI(0, 0), CI(1, 0)>>)
TB == Comp("ImTime", "B", <<CI(0, 0), CI(1, 0)>>)
Meshes == <<<<FA>>, <<FA>>, <<FA>>, <<FB>>, <<RA>>, <<RA>>, <<TF>>, <<TB>>, <<FA, RA>>, <<TF, FA>>, <<RA, TB>>, <<DA>>>>
BMeshes == <<<<FA>>, <<RA>>>>
Shapes == <<<<>>, <<1, 1>>, <<2, 2>>, <<2, 2>>, <<2, 2>>, <<1, 2>>, <<2, 1>>, <<2>>>>
Z == <<CI(0, 0), CI(1, 0), CI(-1, 0), CI(2, 0), CI(0, 1), CI(0, -1), CI(1, 1), Half, CI(1, -2)>>
NZ == SubSeq(Z, 2, 9)
ZR == <<CI(0, 0), CI(1, 0), CI(-1, 0), CI(2, 0), Half>>

Pick(q, x) == q[(x % Len(q)) + 1]
Data(q, s, len) == [i \in 1..len |-> Pick(q, s[10] + i * s[11] + i * i * s[12])]
GfRegs == SelectSeq(GN, LAMBDA r : S.regs[r].t = "gf")
BlkRegs == SelectSeq(BN, LAMBDA r : S.regs[r].t \in {"blk", "blk2"})
V(r) == ValOf(S.heap, S.regs[r])
No == [o |-> "none"]
Num(s) == [a |-> "num", z |-> Pick(Z, s[5])]
NumR(s) == [a |-> "num", z |-> Pick(ZR, s[5])]
Mat(s, sh) == [a |-> "mat", sh |-> sh, d |-> Data(Z, s, Prod(sh))]
MatSh == <<<<2, 2>>, <<1, 1>>, <<2, 2>>, <<1, 2>>, <<2, 1>>>>
Reg(s) == [a |-> "reg", r |-> Pick(GfRegs, s[6])]
(* mostly a register with a compatible mesh *)
Match(r) == SelectSeq(GfRegs, LAMBDA q : MeshCompat(S.regs[q].mesh, S.regs[r].mesh) /\ q # r)
RegFor(s, r) == LET m == Match(r) IN IF m = <<>> \/ s[12] % 3 = 0 THEN Reg(s) ELSE [a |-> "reg", r |-> Pick(m, s[6])]
Flip(m) == [q \in 1..Len(m) |-> IF m[q].k = "ImTime" THEN [m[q] EXCEPT !.st = IF @ = "F" THEN "B" ELSE "F"] ELSE m[q]]
Key(s, sh) == LET ints == s[7] % 3 = 0 IN
  [q \in 1..Len(sh) |-> LET i == s[q] % sh[q] IN IF ints THEN [s |-> FALSE, i |-> i, j |-> 0] ELSE [s |-> TRUE, i |-> i, j |-> i + 1 + (s[q + 2] % (sh[q] - i))]]
BadKey(s, sh) == IF s[8] % 9 = 0 /\ Len(sh) = 2 THEN (IF s[8] % 2 = 0 THEN <<[s |-> TRUE, i |-> 0, j |-> 1]>> ELSE <<[s |-> TRUE, i |-> 0, j |-> 1], [s |-> FALSE, i |-> 0, j |-> 0]>>) ELSE Key(s, sh)
PtKey(s, m) == [q \in 1..Len(m) |-> s[q] % Len(m[q].v)]
Form(s) == [q \in 1..2 |-> Pick(<<"mp", "idx">>, s[q + 4])]
(* random expressions; leaves: registers of the right kind, numbers, Omega *)
RECURSIVE Expr(_, _, _, _, _)
Leaf(s, k, rs) == LET w == s[k] % 4 IN IF w <= 1 /\ rs # <<>> THEN [o |-> "reg", r |-> Pick(rs, s[k] \div 4)] ELSE IF w = 2 THEN [o |-> "om"] ELSE IF rs = <<>> \/ w = 3 THEN [o |-> "om"] ELSE [o |-> "om"]
Expr(s, k, depth, rs, iv) ==
  IF depth = 0 THEN Leaf(s, k, rs)
  ELSE LET w == (s[k] \div 7) % 10 IN
       CASE w \in {0, 1} -> [o |-> "+", l |-> Expr(s, 2 * k, depth - 1, rs, iv), r |-> Expr(s, 2 * k + 1, depth - 1, rs, FALSE)]
         [] w \in {2, 3} -> [o |-> "-", l |-> Expr(s, 2 * k, depth - 1, rs, iv), r |-> Expr(s, 2 * k + 1, depth - 1, rs, FALSE)]
         [] w = 4 -> [o |-> "*", l |-> Expr(s, 2 * k, depth - 1, rs, iv), r |-> Expr(s, 2 * k + 1, depth - 1, rs, FALSE)]
         [] w = 5 /\ iv -> [o |-> "inv", l |-> Expr(s, 2 * k, 1, rs, FALSE)]
         [] w = 6 -> [o |-> Pick(<<"conj", "tr">>, s[k]), l |-> Expr(s, 2 * k, depth - 1, rs, iv)]
         [] w = 7 -> [o |-> Pick(<<"+", "-", "*">>, s[k]), l |-> [o |-> "num", z |-> Pick(NZ, s[2 * k])], r |-> Expr(s, 2 * k + 1, depth - 1, rs, iv)]
         [] w = 8 -> [o |-> Pick(<<"+", "-", "*", "/">>, s[k]), l |-> Expr(s, 2 * k, depth - 1, rs, iv), r |-> [o |-> "num", z |-> Pick(NZ, s[2 * k + 1])]]
         [] OTHER -> Leaf(s, k, rs)
RECURSIVE PureLeaves(_)
PureLeaves(e) == CASE e.o \in {"reg"} -> FALSE [] e.o \in {"om", "num"} -> TRUE
                   [] e.o \in {"inv", "conj", "tr"} -> PureLeaves(e.l)
                   [] OTHER -> PureLeaves(e.l) /\ PureLeaves(e.r)
Top(s, rs) == LET e == Expr(s, 1, IF Bound > 6 THEN 2 ELSE 3, rs, TRUE) IN e
RealOnly(r) == S.regs[r].t = "gf" /\ S.regs[r].real
Same(r) == SelectSeq(GfRegs, LAMBDA q : S.regs[q].mesh = S.regs[r].mesh /\ S.regs[q].shape = S.regs[r].shape /\ ~S.regs[q].real)

ArgFor(s, r, x) == (* an argument for arithmetic with x *)
  LET w == s[4] % 6 IN
  IF w <= 2 THEN RegFor(s, r)
  ELSE IF w <= 3 THEN IF x.real THEN NumR(s) ELSE Num(s)
  ELSE IF x.real THEN NumR(s) ELSE Mat(s, Pick(MatSh, s[9]))

GenGf(k, s) ==
  LET d == Pick(GN, s[3])
      r == Pick(GfRegs, s[1])
      g == S.regs[r]
      x == V(r)
  IN CASE k = "new" -> LET m == Pick(Meshes, s[1]) sh == Pick(Shapes, s[2]) re == s[4] % 8 = 0
                       IN [o |-> "new", d |-> d, mesh |-> m, shape |-> sh, real |-> re, dat |-> Data(IF re THEN ZR ELSE Z, s, MSize(m) * TSize(sh))]
       [] k = "newlike" -> [o |-> "new", d |-> d, mesh |-> IF s[5] % 2 = 0 THEN Flip(g.mesh) ELSE g.mesh, shape |-> IF s[2] % 3 = 0 THEN Pick(Shapes, s[4]) ELSE g.shape, real |-> FALSE,
                            dat |-> Data(Z, s, MSize(g.mesh) * TSize(IF s[2] % 3 = 0 THEN Pick(Shapes, s[4]) ELSE g.shape))]
       [] k \in {"copy", "pickle", "neg", "conj", "transp", "real", "imag", "inverse"} -> [o |-> k, x |-> r, d |-> d]
       [] k \in {"invert", "zero"} -> [o |-> k, x |-> r]
       [] k \in {"add", "sub", "mul"} -> [o |-> k, x |-> r, d |-> d, a |-> ArgFor(s, r, x), at |-> (k = "mul" /\ s[8] % 3 = 0)]
       [] k = "div" -> [o |-> k, x |-> r, d |-> d, a |-> [a |-> "num", z |-> IF x.real THEN Half ELSE Pick(NZ, s[5])]]
       [] k \in {"radd", "rsub", "rmul"} -> [o |-> k, x |-> r, d |-> d, a |-> IF x.real THEN NumR(s) ELSE IF s[4] % 2 = 0 THEN Num(s) ELSE Mat(s, Pick(MatSh, s[9])), at |-> (k = "rmul" /\ s[8] % 3 = 0)]
       [] k \in {"iadd", "isub", "imul"} -> [o |-> k, x |-> r, a |-> ArgFor(s, r, x), at |-> (k = "imul" /\ s[8] % 3 = 0)]
       [] k = "idiv" -> [o |-> k, x |-> r, a |-> [a |-> "num", z |-> IF x.real THEN Half ELSE Pick(NZ, s[5])]]
       [] k = "tslice" -> IF x.shape = <<>> THEN No ELSE [o |-> k, x |-> r, d |-> d, key |-> BadKey(s, x.shape)]
       [] k = "mslice" -> IF Len(x.mesh) < 2 THEN No
                          ELSE LET p == s[4] % 2 IN [o |-> k, x |-> r, d |-> d, form |-> Form(s), key |-> [q \in 1..2 |-> IF q = p + 1 THEN s[q] % Len(x.mesh[q].v) ELSE -1]]
       [] k = "getpt" -> [o |-> k, x |-> r, key |-> PtKey(s, x.mesh), form |-> IF s[7] % 4 = 0 THEN <<"idx1", "idx1">> ELSE Form(s)]
       [] k = "setpt" -> [o |-> k, x |-> r, key |-> PtKey(s, x.mesh), form |-> Form(s), dat |-> Data(IF x.real THEN ZR ELSE Z, s, TSize(x.shape))]
       [] k = "setpte" -> IF x.shape = <<>> THEN No ELSE [o |-> k, x |-> r, key |-> PtKey(s, x.mesh), form |-> Form(s), t |-> s[7] % TSize(x.shape), dat |-> Data(IF x.real THEN ZR ELSE Z, s, 1)]
       [] k = "setdata" -> [o |-> k, x |-> r, dat |-> Data(IF x.real THEN ZR ELSE Z, s, MSize(x.mesh) * TSize(x.shape))]
       [] k = "lshift" -> [o |-> k, x |-> r, full |-> (s[8] % 3 = 0), a |-> IF x.real \/ s[4] % 2 = 0 THEN Reg(s) ELSE IF s[4] % 3 = 0 THEN Num(s) ELSE Mat(s, Pick(MatSh, s[9]))]
       [] k = "setsl" -> IF x.shape = <<>> THEN No ELSE [o |-> k, x |-> r, key |-> Key(s, x.shape), a |-> IF x.real \/ s[4] % 2 = 0 THEN Reg(s) ELSE IF s[4] % 3 = 0 THEN Num(s) ELSE Mat(s, Pick(MatSh, s[9]))]
       [] k = "copyfrom" -> LET q == Pick(GfRegs, s[6]) IN IF S.regs[q].mesh = x.mesh THEN [o |-> k, x |-> r, y |-> q] ELSE No
       [] k = "lgr" -> LET q == Pick(GfRegs, s[6]) y == S.regs[q] IN
                       IF Len(y.shape) = 2 /\ Len(x.shape) = 2 /\ Len(x.mesh) = 1 /\ x.mesh = y.mesh /\ q # r
                       THEN [o |-> k, x |-> r, y |-> q, l |-> Mat(s, <<x.shape[1], y.shape[1]>>), r |-> Mat([s EXCEPT ![10] = s[9]], <<y.shape[2], IF s[8] % 7 = 0 THEN 3 ELSE x.shape[2]>>)] ELSE No
       [] k = "lazy" -> LET e == Top(s, Same(r)) IN [o |-> "lshift", x |-> r, full |-> FALSE, a |-> [a |-> "expr", e |-> e, str |-> (PureLeaves(e) /\ s[8] % 2 = 0)]]
       [] k = "lazysl" -> IF x.shape = <<>> THEN No ELSE [o |-> "setsl", x |-> r, key |-> Key(s, x.shape), a |-> [a |-> "expr", e |-> Top(s, <<>>), str |-> FALSE]]
       [] k = "evalx" -> LET e == [o |-> Pick(<<"+", "-", "*">>, s[4]), l |-> [o |-> "reg", r |-> r], r |-> Top(s, Same(r))]
                         IN [o |-> k, x |-> r, d |-> d, e |-> IF s[7] % 2 = 0 THEN e ELSE [e EXCEPT !.l = e.r, !.r = e.l]]
       [] k = "dyson" -> IF Same(r) = <<>> THEN No ELSE LET q == Pick(Same(r), s[6]) IN [o |-> k, x |-> r, y |-> q, d |-> d, w |-> Pick(<<"G0", "G", "Sigma">>, s[4])]
       [] k = "func" -> [o |-> k, x |-> r, c |-> Data(Z, s, 3), m |-> Data(Z, [s EXCEPT ![10] = s[9]], TSize(x.shape))]
       [] OTHER -> No

(* block operations *)
KeyList == <<<<"up", "dn">>, <<"dn", "up">>, <<"A">>, <<"x", "y", "z">>, <<"up", "dn">>, <<"up", "up">>>>
N1 == <<<<"up", "dn">>, <<"A">>, <<"x", "y">>>>
N2 == <<<<"up", "dn">>, <<"B", "C">>, <<"D">>>>
SubKeys(s, ks) == SelectSeq(ks, LAMBDA q : TRUE)
Range(q) == {q[i] : i \in 1..Len(q)}
BArgFor(s, b, o) ==
  LET w == s[4] % 7 bl == BlkRegs same == SelectSeq(BlkRegs, LAMBDA r : S.regs[r].t = b.t) IN
  IF w <= 2 THEN LET perm == SelectSeq(same, LAMBDA r : S.regs[r] # b /\ Range(S.regs[r].keys) = Range(b.keys)) IN
                 [a |-> "blk", r |-> IF perm # <<>> /\ s[12] % 4 # 0 THEN Pick(perm, s[6]) ELSE Pick(same, s[6])]
  ELSE IF w = 3 THEN Num(s)
  ELSE IF w = 4 THEN Mat(s, <<2, 2>>)
  ELSE IF w = 5 /\ b.t = "blk" /\ o \in {"badd", "bsub", "biadd", "bisub"} THEN
    [a |-> "list", l |-> [i \in 1..(Len(b.keys) + IF s[8] % 6 = 0 THEN 1 ELSE 0) |-> IF s[i] % 2 = 0 THEN [a |-> "num", z |-> Pick(Z, s[i + 1])] ELSE [a |-> "reg", r |-> Pick(GfRegs, s[i + 2])]]]
  ELSE [a |-> "expr", e |-> Top(s, <<>>), str |-> FALSE]
GenBlk(k, s) ==
  LET d == Pick(BN, s[3])
      r == Pick(BlkRegs, s[1])
      b == S.regs[r]
  IN CASE k = "bnew" -> LET ks == Pick(KeyList, s[2]) IN [o |-> k, d |-> d, keys |-> ks, copy |-> (s[4] % 2 = 0), form |-> Pick(<<"list", "gen", "mut">>, s[5]),
                         l |-> [i \in 1..(Len(ks) + IF s[8] % 12 = 0 THEN 1 ELSE 0) |-> Pick(GfRegs, s[5 + i])]]
       [] k = "b2new" -> LET n1 == Pick(N1, s[1]) n2 == Pick(N2, s[2]) f == Pick(<<"list", "call", "mut">>, s[5]) IN [o |-> k, d |-> d, n1 |-> n1, n2 |-> n2, copy |-> (s[4] % 2 = 0), form |-> f,
                         l |-> [i \in 1..(Len(n1) * Len(n2)) |-> Pick(GfRegs, s[i] + s[9])]]
       [] k = "bstruct" -> LET ks == Pick(SubSeq(KeyList, 1, 4), s[2]) IN [o |-> k, d |-> d, keys |-> ks, sizes |-> [i \in 1..Len(ks) |-> s[5 + i] % 3], rank |-> Pick(<<2, 2, 2, 0, 1>>, s[4]), mesh |-> Pick(BMeshes, s[1])]
       [] k = "bperm" -> (* the blocks of r in the reverse order *)
                         LET nb == Len(b.keys) rev(q) == [i \in 1..nb |-> q[nb + 1 - i]] IN
                         IF b.t # "blk" \/ (\E i \in 1..nb : b.gs[i].mesh # b.gs[1].mesh \/ Len(b.gs[i].shape) # Len(b.gs[1].shape) \/ ~(Len(b.gs[i].shape) = 0 \/ Square(b.gs[i].shape))) THEN No
                         ELSE [o |-> "bstruct", d |-> d, keys |-> rev(b.keys), rank |-> Len(b.gs[1].shape), mesh |-> b.gs[1].mesh,
                               sizes |-> rev([i \in 1..nb |-> IF Len(b.gs[i].shape) = 0 THEN 0 ELSE b.gs[i].shape[1]])]
       [] k = "blike" -> (* fill a register with the block *) [o |-> "bget", x |-> r, d |-> Pick(GN, s[4]), k |-> Pick(b.keys, s[5])]
       [] k = "bget" -> [o |-> k, x |-> r, d |-> Pick(GN, s[4]), k |-> IF s[6] % 6 = 0 THEN (IF b.t = "blk" THEN "no" ELSE "up,no") ELSE Pick(b.keys, s[5])]
       [] k = "bset" -> [o |-> k, x |-> r, k |-> IF s[6] % 8 = 0 THEN (IF b.t = "blk" THEN "no" ELSE "no,up") ELSE Pick(b.keys, s[5]), a |-> IF s[4] % 2 = 0 THEN [a |-> "reg", r |-> Pick(GfRegs, s[7])] ELSE Num(s)]
       [] k = "bsetdata" -> LET kk == Pick(b.keys, s[5]) IN [o |-> "bset", x |-> r, k |-> kk, a |-> [a |-> "expr", str |-> FALSE, e |-> Top(s, <<>>)]]
       [] k \in {"bcopy", "bpickle", "breal", "bimag", "bneg", "bmapneg"} -> [o |-> k, x |-> r, d |-> d]
       [] k \in {"binverse", "btransp", "bconj"} -> IF b.t = "blk" THEN [o |-> k, x |-> r, d |-> d] ELSE No
       [] k \in {"bzero"} -> [o |-> k, x |-> r]
       [] k = "binvert" -> IF b.t = "blk" THEN [o |-> k, x |-> r] ELSE No
       [] k = "bsel" -> IF b.t = "blk" THEN [o |-> k, x |-> r, d |-> d, copy |-> (s[4] % 2 = 0), keys |-> IF s[5] % 7 = 0 THEN <<"no">> ELSE
                           LET q == SelectSeq(b.keys, LAMBDA z : z # Pick(b.keys, s[6]) \/ s[7] % 2 = 0) IN IF q = <<>> THEN b.keys ELSE IF s[9] % 2 = 0 THEN [i \in 1..Len(q) |-> q[Len(q) + 1 - i]] ELSE q]
                        ELSE LET q1 == SelectSeq(b.n1, LAMBDA z : z # Pick(b.n1, s[6]) \/ s[7] % 2 = 0) q2 == SelectSeq(b.n2, LAMBDA z : z # Pick(b.n2, s[6]) \/ s[8] % 2 = 0)
                                 rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
                             IN [o |-> "b2sel", x |-> r, d |-> d, copy |-> (s[4] % 2 = 0), n1 |-> IF q1 = <<>> THEN b.n1 ELSE rev(q1), n2 |-> IF q2 = <<>> THEN b.n2 ELSE rev(q2)]
       [] k \in {"badd", "bsub", "bmul", "biadd", "bisub", "bimul", "blshift"} -> LET a == BArgFor(s, b, k) IN
             IF k \in {"biadd", "bisub", "bimul", "blshift"} THEN [o |-> k, x |-> r, a |-> a] ELSE [o |-> k, x |-> r, d |-> d, a |-> a]
       [] k \in {"bdiv"} -> [o |-> k, x |-> r, d |-> d, a |-> [a |-> "num", z |-> Pick(NZ, s[5])]]
       [] k \in {"bidiv"} -> [o |-> k, x |-> r, a |-> IF b.t = "blk" /\ s[6] % 3 = 0 THEN [a |-> "list", l |-> [i \in 1..Len(b.keys) |-> [a |-> "num", z |-> Pick(NZ, s[i + 6])]]] ELSE [a |-> "num", z |-> Pick(NZ, s[5])]]
       [] k \in {"bradd", "brsub", "brmul"} -> [o |-> k, x |-> r, d |-> d, a |-> IF s[4] % 2 = 0 THEN Num(s) ELSE Mat(s, <<2, 2>>)]
       [] k = "bcopyfrom" -> LET q == Pick(BlkRegs, s[6]) IN IF S.regs[q].t = b.t /\ S.regs[q].keys = b.keys THEN [o |-> k, x |-> r, y |-> q] ELSE No
       [] k = "bfourier" -> LET q == Pick(BlkRegs, s[6]) IN IF b.t = "blk" /\ S.regs[q].t = "blk" /\ S.regs[q].keys = b.keys THEN [o |-> k, x |-> r, y |-> q, twice |-> (s[7] % 2 = 0)] ELSE No
       [] OTHER -> No

BlkKinds == {"bperm", "bnew", "b2new", "bstruct", "blike", "bget", "bset", "bsetdata", "bcopy", "bpickle", "breal", "bimag", "bneg", "bmapneg", "binverse", "btransp", "bconj", "bzero", "binvert", "bsel",
             "badd", "bsub", "bmul", "biadd", "bisub", "bimul", "blshift", "bdiv", "bidiv", "bradd", "brsub", "brmul", "bcopyfrom", "bfourier"}
(* can the operation be formed in this state at all *)
Formable(k) == CASE k \in {"new", "newp", "bstruct"} -> TRUE
                 [] k \in BlkKinds \ {"bnew", "b2new"} -> BlkRegs # <<>> /\ (k \in {"bset", "biadd", "bisub", "badd", "bsub"} => GfRegs # <<>>)
                 [] OTHER -> GfRegs # <<>>
(* aliases give some operations more weight *)
Alias == [mul2 |-> "mul", mul3 |-> "mul", newp |-> "new", lazy2 |-> "lazy", lazy3 |-> "lazy", evalx2 |-> "evalx", mslice2 |-> "mslice", tslice2 |-> "tslice", setsl2 |-> "setsl"]
Base(k) == IF k \in DOMAIN Alias THEN Alias[k] ELSE k
Gen(k, s) == IF k \in BlkKinds THEN GenBlk(k, s) ELSE IF k = "newp" THEN GenGf("new", [s EXCEPT ![1] = 8 + (@ % 3)]) ELSE GenGf(Base(k), s)

(* what is left open by the documentation, and so not generated *)
CellsOf(r) == CASE r.t = "gf" -> {r.cells[i][1] : i \in 1..Len(r.cells)} [] r.t = "none" -> {} [] OTHER -> UNION {{r.gs[j].cells[i][1] : i \in 1..Len(r.gs[j].cells)} : j \in 1..Len(r.gs)}
ArgGf(a) == IF "a" \in DOMAIN a /\ a.a = "reg" THEN {a.r} ELSE {}
TShape(op, x) == IF op.o = "setsl" THEN (IF op.key[1].s THEN [i \in 1..Len(op.key) |-> KLen(op.key[i])] ELSE <<>>) ELSE x.shape
Complex(v) == ~v.real
Determined(op) ==
  LET x == IF "x" \in DOMAIN op /\ S.regs[op.x].t = "gf" THEN V(op.x) ELSE [real |-> FALSE, shape |-> <<>>, mesh |-> <<>>, d |-> <<>>]
      y == IF "a" \in DOMAIN op /\ op.a.a = "reg" THEN V(op.a.r) ELSE [real |-> FALSE, shape |-> <<>>, mesh |-> <<>>, d |-> <<>>]
      aa == IF "a" \in DOMAIN op THEN op.a.a ELSE "none"
  IN CASE op.o \in {"inverse", "invert"} -> ~x.real /\ Invertible(x)
       [] op.o = "imag" -> ~x.real
       [] op.o \in {"add", "sub", "iadd", "isub", "radd", "rsub"} -> /\ aa = "num" => (Len(x.shape) \in {0} \/ (Square(x.shape) /\ Freq(x.mesh) /\ ~x.real))
                                                                     /\ aa = "mat" => ~x.real
                                                                     /\ (aa = "reg" /\ x.real) => (y.real \/ op.o \in {"iadd", "isub"})
       [] op.o = "mul" -> ~(x.real /\ y.real /\ aa = "reg") /\ (aa = "reg" => Len(x.shape) # 1 /\ Len(y.shape) # 1)
       [] op.o = "imul" -> /\ (aa = "reg" => Len(x.shape) # 1 /\ Len(y.shape) # 1)
                           /\ (aa = "reg" => \A i \in 1..Len(x.mesh) : ~(x.mesh[i].k = "ImTime" /\ x.mesh[i].st = "F"))
       [] op.o \in {"lshift", "setsl"} -> /\ (aa = "reg" /\ x.real) => y.real
                                          /\ aa \in {"num", "mat"} => Len(x.shape) # 1
                                          /\ aa = "mat" => Len(x.shape) = 2 /\ (op.o = "setsl" => op.key[1].s)
                                          /\ aa = "expr" => (FreqD(x.mesh) /\ ~x.real /\ (LET sh == TShape(op, x) IN Len(sh) = 0 \/ Square(sh)))
       [] op.o = "copyfrom" -> S.regs[op.x].real => S.regs[op.y].real
       [] op.o = "lgr" -> ~S.regs[op.x].real /\ ~S.regs[op.y].real /\ CellsOf(S.regs[op.x]) \cap CellsOf(S.regs[op.y]) = {}
       [] op.o = "evalx" -> Freq(x.mesh) /\ ~x.real /\ (Len(x.shape) = 0 \/ Square(x.shape))
       [] op.o = "dyson" -> ~x.real /\ Invertible(x)
       [] op.o = "func" -> ~x.real
       [] op.o \in {"bnew", "b2new"} -> \A i \in 1..Len(op.l) : ~S.regs[op.l[i]].real
       [] op.o \in (BlkKinds \cup {"b2sel"}) \ {"bstruct"} ->
            LET b == S.regs[op.x] IN
            /\ op.o \notin {"bget", "bcopy", "bpickle", "bsel", "b2sel", "bzero"} => \A i \in 1..Len(b.gs) : ~b.gs[i].real
            /\ op.o \in {"binverse", "binvert"} => \A i \in 1..Len(b.gs) : Invertible(ValOf(S.heap, b.gs[i]))
            /\ op.o \in {"bimul", "bpickle"} => \A i, j \in 1..Len(b.gs) : i < j => CellsOf(b.gs[i]) \cap CellsOf(b.gs[j]) = {}
            /\ op.o = "btransp" => \A i \in 1..Len(b.gs) : Len(b.gs[i].shape) = 2 /\ Len(b.gs[i].mesh) = 1
            /\ aa = "reg" => ~y.real
            /\ aa = "blk" => \A i \in 1..Len(S.regs[op.a.r].gs) : ~S.regs[op.a.r].gs[i].real
            /\ aa = "list" => \A i \in 1..Len(op.a.l) : (op.a.l[i].a = "reg" => ~S.regs[op.a.l[i].r].real)
            /\ aa \in {"num", "mat", "list", "expr"} => \A i \in 1..Len(b.gs) : (Len(b.gs[i].shape) = 0 \/ Square(b.gs[i].shape)) /\ Freq(b.gs[i].mesh)
            /\ (aa = "mat" /\ op.o \in {"bmul", "bimul"}) => \A i \in 1..Len(b.gs) : b.gs[i].shape = op.a.sh
            /\ op.o \in {"bmul", "bimul"} => (\A i \in 1..Len(b.gs) : Len(b.gs[i].shape) # 1) /\ (aa = "blk" => \A i \in 1..Len(S.regs[op.a.r].gs) : Len(S.regs[op.a.r].gs[i].shape) # 1)
            /\ op.o = "bfourier" => (\A i \in 1..Len(b.gs) : ~b.gs[i].real /\ b.gs[i].shape = S.regs[op.y].gs[i].shape /\ b.gs[i].mesh = S.regs[op.y].gs[i].mesh /\ ~S.regs[op.y].gs[i].real)
                                    /\ CellsOf(b) \cap CellsOf(S.regs[op.y]) = {}
            /\ op.o = "bcopyfrom" => \A i \in 1..Len(b.gs) : b.gs[i].mesh = S.regs[op.y].gs[i].mesh /\ ~S.regs[op.y].gs[i].real /\ b.gs[i].shape = S.regs[op.y].gs[i].shape
       [] OTHER -> TRUE
(* operations over several blocks which stop half way are not looked at *)
Partial(op, r) == r.res = "ref" /\ op.o \in {"biadd", "bisub", "bimul", "bidiv", "blshift", "bzero", "binvert", "bcopyfrom", "bfourier"}
                  /\ ~(op.o \in {"biadd", "bisub"} /\ op.a.a = "list" /\ Len(op.a.l) # Len(S.regs[op.x].keys))
SmallHeap(h) == \A i \in 1..Len(h) : Small(h[i], Bound)

Empty == [heap |-> <<>>, regs |-> [r \in Names |-> [t |-> "none"]]]
Init == S = Empty /\ opj = "{}" /\ n = 0
Dice == TLCEval([k \in 1..64 |-> RandomElement(0..(9999 + 0 * n))])  \* depends on n, so that it is thrown anew in every state
Next == /\ n < MaxOps
        /\ \E k \in Kinds : Formable(k) /\ \E s \in {Dice} : \E op \in {TLCEval(Gen(k, s))} :
             /\ op.o # "none" /\ Determined(op)
             /\ \E r \in {TLCEval(Step(S, op))} :
                  /\ r.res # "undef" /\ ~Partial(op, r) /\ SmallHeap(r.S.heap)
                  /\ S' = r.S /\ opj' = ToJson(op) /\ n' = n + 1
Spec == Init /\ [][Next]_<<S, opj, n>>

AllGf == {"mul2", "mul3", "new", "newp", "mslice2", "tslice2", "setsl2", "newlike", "copy", "pickle", "neg", "conj", "transp", "real", "imag", "inverse", "invert", "zero", "add", "sub", "mul", "div", "radd", "rsub", "rmul",
          "iadd", "isub", "imul", "idiv", "tslice", "mslice", "getpt", "setpt", "setpte", "setdata", "lshift", "setsl", "copyfrom", "lgr"}
LazyKinds == {"new", "lazy2", "lazy3", "evalx2", "newlike", "lazy", "lazysl", "evalx", "dyson", "func", "tslice", "setpt", "iadd", "copy"}
BlockKinds == BlkKinds \cup {"new", "newlike", "setpt", "tslice"}
===============================================================================
