------------------------------ MODULE GfContainer -----------------------------
(***************************************************************************)
(* The C++ Green's function containers: gf, gf_view, block_gf and          *)
(* block_gf_view, with expressions, assignment and the functions on them.  *)
(*                                                                         *)
(* mem is the memory: a sequence of numbers.  An object has a mesh (a      *)
(* number; 0: there is no object), a target shape and the addresses of its *)
(* elements (mesh major, target in C order).  A gf owns its addresses, a   *)
(* view has addresses of the gf it looks at.  A block container is a list  *)
(* of block names; its blocks are objects, with identifiers of their own.  *)
(***************************************************************************)
EXTENDS GaussRat, FiniteSets

CONSTANTS Gfs, Views, SGfs, SViews,     \* identifiers: matrix valued and scalar valued
          Blocks, BViews,               \* identifiers of block containers
          Part(_, _),                   \* identifier of a block
          MaxBlocks
BParts == {Part(b, i) : b \in Blocks, i \in 1..MaxBlocks}
VParts == {Part(b, i) : b \in BViews, i \in 1..MaxBlocks}
Owners == Gfs \cup SGfs \cup BParts
Looks == Views \cup SViews \cup VParts
Ids == Owners \cup Looks
IsS(x) == x \in SGfs \cup SViews
NoOb == [m |-> 0, sh |-> <<>>, at |-> <<>>]
Empty == [mem |-> <<>>, ob |-> [x \in Ids |-> NoOb], bn |-> [b \in Blocks \cup BViews |-> <<>>]]

(* ------------------------------- meshes -------------------------------- *)
(* imfreq: 1 fermionic, 2 bosonic, 3 fermionic at another temperature, 4..6 their positive halves; *)
(* imtime: 1 fermionic, 2 bosonic, 3 bosonic with another number of points; refreq: 1..3           *)
Size(K, m) == CASE K = "imfreq" -> <<4, 3, 4, 2, 2, 2>>[m] [] K = "imtime" -> <<3, 3, 2>>[m] [] OTHER -> <<3, 3, 2>>[m]
Boson(m) == m \in {2, 5}
Positive(K, m) == K = "imfreq" /\ m > 3
\* the mesh of a product; 0: refused
ProdMesh(K, x, y) == IF K = "imtime" /\ x < 3 /\ y < 3 THEN (IF x = y THEN 2 ELSE 1) ELSE IF x = y THEN x ELSE 0
Tot(sh) == IF sh = <<>> THEN 1 ELSE sh[1] * sh[2]

(* ------------------------------- values -------------------------------- *)
Val(S, x) == LET o == S.ob[x] IN [ok |-> TRUE, m |-> o.m, sh |-> o.sh, v |-> TLCEval([i \in 1..Len(o.at) |-> S.mem[o.at[i]]])]
Fail == [ok |-> FALSE, m |-> 0, sh |-> <<>>, v |-> <<>>]
Map(x, F(_)) == [x EXCEPT !.v = TLCEval([i \in 1..Len(x.v) |-> F(x.v[i])])]
Same(sh, x) == x.sh = sh
RECURSIVE Dot(_, _, _, _, _, _)
Dot(x, y, bx, by, step, k) == IF k = 0 THEN CZero ELSE CAdd(Dot(x, y, bx, by, step, k - 1), CMul(x[bx + k], y[by + (k - 1) * step]))
\* product of the matrices (n, k) and (k, q) at every mesh point; a matrix of one point serves every mesh point
MatV(x, y, N, n, k, q, px, py) == TLCEval([i \in 1..(N * n * q) |->
     LET p == (i - 1) \div (n * q) t == (i - 1) % (n * q) r == t \div q c == t % q
     IN Dot(x, y, (IF px THEN p * n * k ELSE 0) + (r * k), (IF py THEN p * k * q ELSE 0) + c + 1, q, k)])
Sum2(x, y, F(_, _)) == IF ~x.ok \/ ~y.ok THEN Fail ELSE IF x.m # y.m \/ x.sh # y.sh THEN Fail
                       ELSE [x EXCEPT !.v = TLCEval([i \in 1..Len(x.v) |-> F(x.v[i], y.v[i])])]
Plus(x, y) == Sum2(x, y, CAdd)
Minus(x, y) == Sum2(x, y, CSub)
Times(K, x, y) == IF ~x.ok \/ ~y.ok THEN Fail ELSE LET m == ProdMesh(K, x.m, y.m) IN
  IF m = 0 \/ x.sh # y.sh THEN Fail
  ELSE IF x.sh # <<>> /\ x.sh # <<x.sh[1], x.sh[1]>> THEN Fail
  ELSE [ok |-> TRUE, m |-> m, sh |-> x.sh,
        v |-> IF x.sh = <<>> THEN TLCEval([i \in 1..Len(x.v) |-> CMul(x.v[i], y.v[i])])
              ELSE MatV(x.v, y.v, Size(K, m), x.sh[1], x.sh[2], x.sh[2], TRUE, TRUE)]
Quot(K, x, y) == IF ~x.ok \/ ~y.ok THEN Fail ELSE LET m == ProdMesh(K, x.m, y.m) IN
  IF m = 0 THEN Fail ELSE [ok |-> TRUE, m |-> m, sh |-> x.sh, v |-> TLCEval([i \in 1..Len(x.v) |-> CMul(x.v[i], CInv(y.v[i]))])]
Scal(k, x) == Map(x, LAMBDA z : CMul(k, z))
Neg(x) == Map(x, CNeg)
\* the expressions: operands a, b, c and scalars k, q
Forms == 0..14
Matrixy == {2, 10, 11}        \* products of matrices: square only
ScalarOnly == {13, 14}
Uses(f) == IF f \in {3, 4, 5, 6, 14} THEN 1 ELSE IF f \in {7, 8, 10} THEN 3 ELSE 2
Ev(K, f, a, b, c, k, q) ==
  CASE f = 0 -> Plus(a, b)
    [] f = 1 -> Minus(a, b)
    [] f = 2 -> Times(K, a, b)
    [] f \in {3, 4} -> Scal(k, a)
    [] f = 5 -> Scal(CInv(k), a)
    [] f = 6 -> Neg(a)
    [] f = 7 -> Minus(Plus(a, b), c)
    [] f = 8 -> Minus(a, Minus(b, c))
    [] f = 9 -> Plus(Scal(k, a), Scal(q, b))
    [] f = 10 -> Times(K, Plus(a, b), c)
    [] f = 11 -> Minus(Times(K, a, b), Times(K, b, a))
    [] f = 12 -> Neg(Minus(a, Scal(k, b)))
    [] f = 13 -> Quot(K, a, b)
    [] f = 14 -> Map(a, LAMBDA z : CMul(k, CInv(z)))

(* ------------------------------ functions ------------------------------ *)
El(x, p, t) == x.v[(p - 1) * Tot(x.sh) + t]
Mk(x, sh, F(_, _)) == [x EXCEPT !.sh = sh, !.v = LET T == Tot(sh) IN TLCEval([i \in 1..((Len(x.v) \div Tot(x.sh)) * T) |-> F(((i - 1) \div T) + 1, ((i - 1) % T) + 1)])]
Tr(sh, t) == IF sh = <<>> THEN 1 ELSE LET r == (t - 1) \div sh[1] c == (t - 1) % sh[1] IN (c * sh[2]) + r + 1   \* of the transposed: element t of it
Points(x) == Len(x.v) \div Tot(x.sh)
\* the mesh point a hermitian conjugation relates a point to
Mirror(K, x, p) == IF K = "imfreq" THEN Points(x) + 1 - p ELSE p
Dagger(K, x) == Mk(x, x.sh, LAMBDA p, t : CConj(El(x, Mirror(K, x, p), Tr(x.sh, t))))
Mirrored(K, x) == Mk(x, x.sh, LAMBDA p, t : CConj(El(x, Mirror(K, x, p), t)))
IsHermitian(K, x) == Positive(K, x.m) \/ Dagger(K, x).v = x.v
IsRealInTau(K, x) == Positive(K, x.m) \/ Mirrored(K, x).v = x.v
IsReal(x) == \A i \in 1..Len(x.v) : CIsReal(x.v[i])
Half == <<<<1, 2>>, RZero>>
Hermitian(K, x) == IF Positive(K, x.m) THEN x ELSE Scal(Half, Plus(x, Dagger(K, x)))
RealInTau(K, x) == IF Positive(K, x.m) THEN x ELSE Scal(Half, Plus(x, Mirrored(K, x)))
\* from the positive frequencies to all
Full(x) == LET L == Points(x) b == Boson(x.m) N == IF b THEN 2 * L - 1 ELSE 2 * L T == Tot(x.sh) IN
  [x EXCEPT !.m = @ - 3, !.v = TLCEval([i \in 1..(N * T) |->
     LET p == ((i - 1) \div T) + 1 t == ((i - 1) % T) + 1 h == N - L IN
     IF p > h THEN El(x, p - h, t) ELSE CConj(El(x, h - p + (IF b THEN 2 ELSE 1), t))])]
Det2(x, p) == IF Tot(x.sh) = 1 THEN El(x, p, 1) ELSE CSub(CMul(El(x, p, 1), El(x, p, 4)), CMul(El(x, p, 2), El(x, p, 3)))
Regular(x) == \A p \in 1..Points(x) : ~CIsZero(Det2(x, p))
Inverse(x) == Mk(x, x.sh, LAMBDA p, t : LET d == CInv(Det2(x, p)) IN
   IF Tot(x.sh) = 1 THEN d ELSE CASE t = 1 -> CMul(d, El(x, p, 4)) [] t = 4 -> CMul(d, El(x, p, 1)) [] OTHER -> CMul(CNeg(d), El(x, p, t)))
Diagonal(x, k) == Mk(x, x.sh, LAMBDA p, t : IF x.sh = <<>> THEN k ELSE IF ((t - 1) \div x.sh[2]) = ((t - 1) % x.sh[2]) THEN k ELSE CZero)
Const(x, mat) == Mk(x, x.sh, LAMBDA p, t : mat[t])
MatL(K, l, n, x) == [x EXCEPT !.sh = <<n, x.sh[2]>>, !.v = MatV(l, x.v, Points(x), n, x.sh[1], x.sh[2], FALSE, TRUE)]
MatR(K, x, r, q) == [x EXCEPT !.sh = <<x.sh[1], q>>, !.v = MatV(x.v, r, Points(x), x.sh[1], x.sh[2], q, TRUE, FALSE)]

(* ------------------------------- memory -------------------------------- *)
Addr(S, x) == {S.ob[x].at[i] : i \in 1..Len(S.ob[x].at)}
\* views which look at (part of) an object lose it
Lost(S, x) == {y \in Looks : Addr(S, y) \cap Addr(S, x) # {}}
Fresh(S, x, w) == LET k == Len(S.mem) n == Len(w.v) dead == Lost(S, x) IN
  [S EXCEPT !.mem = @ \o w.v,
            !.ob = [y \in Ids |-> IF y = x THEN [m |-> w.m, sh |-> w.sh, at |-> [i \in 1..n |-> k + i]] ELSE IF y \in dead THEN NoOb ELSE S.ob[y]]]
Write(S, x, w) == [S EXCEPT !.mem = [i \in 1..Len(S.mem) |-> IF i \in Addr(S, x) THEN w.v[CHOOSE j \in 1..Len(w.v) : S.ob[x].at[j] = i] ELSE S.mem[i]]]
Fits(S, x, w) == S.ob[x].m # 0 /\ S.ob[x].sh = w.sh /\ Len(S.ob[x].at) = Len(w.v)
\* a gf takes over mesh and values, and keeps its memory if the values fit in it; a view keeps its mesh and requires it
Put(S, x, w) ==
  IF ~w.ok THEN [S |-> S, ok |-> FALSE]
  ELSE IF x \in Owners THEN [ok |-> TRUE, S |-> IF Fits(S, x, w) THEN [Write(S, x, w) EXCEPT !.ob[x].m = w.m] ELSE Fresh(S, x, w)]
  ELSE IF S.ob[x].m # w.m THEN [S |-> S, ok |-> FALSE] ELSE [S |-> Write(S, x, w), ok |-> TRUE]
Look(S, x, o) == [S EXCEPT !.ob[x] = o]
RangeOf(s) == {s[i] : i \in 1..Len(s)}

(* ------------------------------ operations ----------------------------- *)
Pick(S, x, rows, cols) == LET o == S.ob[x] n == Len(rows) q == Len(cols) IN
  [o EXCEPT !.sh = <<n, q>>, !.at = [i \in 1..((Len(o.at) \div Tot(o.sh)) * n * q) |->
     LET p == (i - 1) \div (n * q) t == (i - 1) % (n * q) IN o.at[(p * Tot(o.sh)) + ((rows[(t \div q) + 1] - 1) * o.sh[2]) + cols[(t % q) + 1]]]]
Interval(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Ok(S) == [S |-> S, ok |-> TRUE]
Refused(S) == [S |-> S, ok |-> FALSE]
Gf1(S, op) == Val(S, op.a)
Blk(S, b) == S.bn[b]
\* block after block; stops at the first that is refused (which leaves the blocks before it changed)
RECURSIVE PutBlocks(_, _, _, _)
PutBlocks(S, b, w, i) == IF i > Len(w) THEN Ok(S) ELSE LET r == Put(S, Part(b, i), w[i]) IN IF r.ok THEN PutBlocks(r.S, b, w, i + 1) ELSE r
RECURSIVE FreshBlocks(_, _, _, _)
FreshBlocks(S, b, w, i) == IF i > Len(w) THEN S ELSE FreshBlocks(Fresh(S, Part(b, i), w[i]), b, w, i + 1)
BLen(S, b) == Len(S.bn[b])
Drop(S, b) == [S EXCEPT !.ob = [y \in Ids |-> IF y \in {Part(b, i) : i \in 1..MaxBlocks} THEN NoOb
                                               ELSE IF y \in Looks /\ \E i \in 1..MaxBlocks : y \in Lost(S, Part(b, i)) THEN NoOb ELSE S.ob[y]]]
Cut(S, b, n) == IF b \in Blocks THEN [S EXCEPT !.ob = [y \in Ids |-> IF y \in {Part(b, i) : i \in (n + 1)..MaxBlocks} THEN NoOb ELSE S.ob[y]]] ELSE S
\* a block container takes over names and values; blocks beyond them disappear
SetBlocks(S, b, names, w) == LET r == PutBlocks(Cut(S, b, Len(names)), b, w, 1) IN IF r.ok THEN Ok([r.S EXCEPT !.bn[b] = names]) ELSE r
\* a new container in the place of b
NewBlocks(S, b, names, w) == Ok([FreshBlocks(Drop(S, b), b, w, 1) EXCEPT !.bn[b] = names])
Vals(S, b) == [i \in 1..BLen(S, b) |-> Val(S, Part(b, i))]

Step(S, K, op) ==
  CASE op.o = "new" -> Ok(Fresh(S, op.d, [ok |-> TRUE, m |-> op.m, sh |-> op.sh, v |-> op.v]))
    [] op.o = "copy" -> Ok(IF op.a = op.d THEN S ELSE Fresh(S, op.d, Val(S, op.a)))
    [] op.o = "assign" -> Put(S, op.d, Ev(K, op.f, Val(S, op.a), Val(S, op.b), Val(S, op.c), op.k, op.q))
    [] op.o = "comp" -> Put(S, op.d, Ev(K, op.f, Val(S, op.d), Val(S, op.b), Val(S, op.b), op.k, op.k))
    [] op.o = "from" -> Put(S, op.d, Val(S, op.a))
    [] op.o = "rebind" -> Ok(Look(S, op.d, S.ob[op.a]))
    [] op.o = "slice" -> Ok(Look(S, op.d, Pick(S, op.a, Interval(op.r[1], op.r[2]), Interval(op.r[3], op.r[4]))))
    [] op.o = "elem" -> Ok(Look(S, op.d, [Pick(S, op.a, <<op.r[1]>>, <<op.r[2]>>) EXCEPT !.sh = <<>>]))
    [] op.o = "asmat" -> Ok(Look(S, op.d, [S.ob[op.a] EXCEPT !.sh = <<1, 1>>]))
    [] op.o = "fill" -> Put(S, op.d, Diagonal(Val(S, op.d), op.k))
    [] op.o = "set" -> LET x == S.ob[op.d].at[((op.p - 1) * Tot(S.ob[op.d].sh)) + op.t] IN Ok([S EXCEPT !.mem[x] = op.k])
    [] op.o = "point" -> LET x == Val(S, op.d) IN Put(S, op.d, Mk(x, x.sh, LAMBDA p, t : IF p = op.p THEN op.v[t] ELSE El(x, p, t)))
    [] op.o = "fun" -> LET x == Val(S, op.d) IN Put(S, op.d, Mk(x, x.sh, LAMBDA p, t : CAdd(CMul(op.k, CI(p, 0)), CMul(op.q, CI(t, 0)))))
    [] op.o = "conj" -> Ok(Fresh(S, op.d, Map(Gf1(S, op), CConj)))
    [] op.o = "mulL" -> Ok(Fresh(S, op.d, MatL(K, op.l, op.n, Gf1(S, op))))
    [] op.o = "mulR" -> Ok(Fresh(S, op.d, MatR(K, Gf1(S, op), op.l, op.n)))
    [] op.o = "lgr" -> Put(S, op.d, MatL(K, op.l, op.n, MatR(K, Gf1(S, op), op.r, op.n)))
    [] op.o = "inv" -> Ok(Fresh(S, op.d, Inverse(Gf1(S, op))))
    [] op.o = "invip" -> Put(S, op.d, Inverse(Val(S, op.d)))
    [] op.o = "mkherm" -> Ok(Fresh(S, op.d, Hermitian(K, Gf1(S, op))))
    [] op.o = "mkreal" -> Ok(Fresh(S, op.d, RealInTau(K, Gf1(S, op))))
    [] op.o = "pos" -> LET o == S.ob[op.a] IN
         Ok(Look(S, op.d, IF Positive(K, o.m) THEN o ELSE LET T == Tot(o.sh) h == (Len(o.at) \div T) - Size(K, o.m + 3)
                          IN [m |-> o.m + 3, sh |-> o.sh, at |-> SubSeq(o.at, (h * T) + 1, Len(o.at))]))
    [] op.o = "full" -> Ok(Fresh(S, op.d, Full(Gf1(S, op))))
    [] op.o = "h5" -> Ok(Fresh(S, op.d, LET x == Gf1(S, op) IN IF Positive(K, x.m) THEN Full(x) ELSE x))
    [] op.o = "reduce" -> Ok(Fresh(S, op.d, Scal(CI(op.n, 0), Gf1(S, op))))
    [] op.o = "shift" -> LET x == Val(S, op.d) IN Put(S, op.d, Plus(x, Diagonal(x, op.k)))
    [] op.o = "shiftm" -> LET x == Val(S, op.d) IN Put(S, op.d, Plus(x, Const(x, op.l)))
    \* ---- block containers
    [] op.o = "bnew" -> NewBlocks(S, op.d, op.names, [i \in 1..Len(op.names) |-> Val(S, op.a[i])])
    [] op.o = "bcopy" -> NewBlocks(S, op.d, S.bn[op.a], Vals(S, op.a))
    [] op.o = "bview" -> Ok([S EXCEPT !.bn[op.d] = S.bn[op.a],
                               !.ob = [y \in Ids |-> IF \E i \in 1..MaxBlocks : y = Part(op.d, i)
                                                     THEN S.ob[Part(op.a, CHOOSE i \in 1..MaxBlocks : y = Part(op.d, i))] ELSE S.ob[y]]])
    [] op.o = "bassign" -> IF op.d \in BViews /\ BLen(S, op.d) # BLen(S, op.a) THEN Refused(S)
         ELSE IF Uses(op.f) > 1 /\ BLen(S, op.b) # BLen(S, op.a) THEN Refused(S)
         ELSE IF Uses(op.f) > 2 /\ BLen(S, op.c) # BLen(S, op.a) THEN Refused(S)
         ELSE SetBlocks(S, op.d, S.bn[op.a], [i \in 1..BLen(S, op.a) |-> Ev(K, op.f, Val(S, Part(op.a, i)), Val(S, Part(op.b, i)), Val(S, Part(op.c, i)), op.k, op.q)])
    [] op.o = "bfrom" -> IF op.d \in BViews /\ BLen(S, op.d) # BLen(S, op.a) THEN Refused(S) ELSE SetBlocks(S, op.d, S.bn[op.a], Vals(S, op.a))
    [] op.o = "bcomp" -> IF Uses(op.f) > 1 /\ BLen(S, op.b) # BLen(S, op.d) THEN Refused(S) ELSE SetBlocks(S, op.d, S.bn[op.d], [i \in 1..BLen(S, op.d) |-> Ev(K, op.f, Val(S, Part(op.d, i)), Val(S, Part(op.b, i)), Val(S, Part(op.b, i)), op.k, op.k)])
    [] op.o = "bfill" -> PutBlocks(S, op.d, [i \in 1..BLen(S, op.d) |-> Diagonal(Val(S, Part(op.d, i)), op.k)], 1)
    [] op.o = "bmap" -> NewBlocks(S, op.d, S.bn[op.a], [i \in 1..BLen(S, op.a) |-> Map(Val(S, Part(op.a, i)), CConj)])
    [] op.o = "bh5" -> NewBlocks(S, op.d, S.bn[op.a], [i \in 1..BLen(S, op.a) |-> LET x == Val(S, Part(op.a, i)) IN IF Positive(K, x.m) THEN Full(x) ELSE x])
    [] OTHER -> Ok(S)

(* what a question answers *)
Answer(S, K, op) ==
  CASE op.o = "isherm" -> IsHermitian(K, Gf1(S, op))
    [] op.o = "isrtau" -> IsRealInTau(K, Gf1(S, op))
    [] op.o = "isreal" -> IsReal(Gf1(S, op))
    [] op.o = "parts" -> LET x == Gf1(S, op) IN [re |-> [i \in 1..Len(x.v) |-> <<x.v[i][1], RZero>>], im |-> [i \in 1..Len(x.v) |-> <<x.v[i][2], RZero>>]]
    [] op.o = "eval" -> LET x == Gf1(S, op) IN
         [t \in 1..Tot(x.sh) |-> IF op.p > 0 THEN El(x, op.p, t) ELSE CConj(El(x, (IF Boson(x.m) THEN 2 ELSE 1) - op.p, t))]
    [] op.o = "biter" -> [i \in 1..BLen(S, op.a) |-> Val(S, Part(op.a, i)).v]
    [] OTHER -> <<>>

(* ---------------- what may be asked for (preconditions) ---------------- *)
Square(S, x) == IsS(x) \/ S.ob[x].sh[1] = S.ob[x].sh[2]
Alive(S, x) == S.ob[x].m # 0
Apart(S, d, x) == S.ob[d].at = S.ob[x].at \/ Addr(S, d) \cap Addr(S, x) = {}
\* reading x while d is written: same elements or none, and not the memory d gives up
CanRead(S, d, x, w) == /\ Apart(S, d, x)
                       /\ (d \in Owners /\ w.ok /\ ~Fits(S, d, w)) => (x = d \/ Addr(S, x) \cap Addr(S, d) = {})
                       /\ (d \in Owners /\ w.ok /\ ~Fits(S, d, w)) => x # d
Finite(w) == \A i \in 1..Len(w.v) : ~IsBad(w.v[i])
ShapeFits(S, d, w) == d \in Looks /\ w.ok => S.ob[d].sh = w.sh
Invariant(S) == /\ \A x \in Ids : LET o == S.ob[x] IN o.m # 0 => \A i, j \in 1..Len(o.at) : o.at[i] = o.at[j] => i = j
                /\ \A x, y \in Owners : x # y => Addr(S, x) \cap Addr(S, y) = {}
                /\ \A x \in Looks : Alive(S, x) => \E y \in Owners : Addr(S, x) \subseteq Addr(S, y)
===============================================================================
