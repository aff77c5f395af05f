----------------------------- MODULE MCGfContainer ----------------------------
(* Random programs on Green's function containers (simulation): every operation whose outcome the specification determines. *)
EXTENDS GfContainer, Json
CONSTANTS MaxOps, Kinds
VARIABLES S, K, opj, n
Part0(b, i) == b \o "_" \o ToString(i)
MGfs == {"A1", "A2", "A3"}
MViews == {"V1", "V2"}
MS == {"S1", "S2"}
MT == {"T1", "T2"}
MB == {"B1", "B2"}
MW == {"W1", "W2"}
Order == <<"A1", "A2", "A3", "V1", "V2", "S1", "S2", "T1", "T2", "B1_1", "B1_2", "B1_3", "B2_1", "B2_2", "B2_3", "W1_1", "W1_2", "W1_3", "W2_1", "W2_2", "W2_3">>
BOrder == <<"B1", "B2", "W1", "W2">>
Z == <<CI(0, 0), CI(1, 0), CI(-1, 0), CI(2, 0), CI(0, 1), CI(0, -1), CI(1, 1), <<<<1, 2>>, RZero>>, CI(1, -2), CI(-3, 0)>>
NZ == SubSeq(Z, 2, 7)
Scalars == <<CI(2, 0), CI(-1, 0), CI(0, 1), <<<<1, 2>>, RZero>>, CI(-3, 0), CI(1, 1)>>
Shapes == <<<<1, 1>>, <<2, 2>>, <<2, 2>>, <<2, 2>>, <<1, 2>>, <<2, 1>>>>
NameSets == <<<<"up", "down">>, <<"a", "b", "c">>, <<"0", "1">>, <<"x">>, <<"down", "up">>>>
P(q, x) == q[(x % Len(q)) + 1]
Sel(F(_)) == SelectSeq(Order, F)
BSel(F(_)) == SelectSeq(BOrder, F)
No == [o |-> "none"]
Vec(q, s, i, len) == [j \in 1..len |-> P(q, s[i] + j * s[i + 1] + j * j * s[i + 2])]
\* data with a symmetry now and then
Data(s, m, sh) == LET len == Size(K, m) * Tot(sh) w == [ok |-> TRUE, m |-> m, sh |-> sh, v |-> Vec(IF s[9] % 3 = 0 THEN NZ ELSE Z, s, 10, len)]
                      sq == sh = <<>> \/ (Len(sh) = 2 /\ sh[1] = sh[2])
                      h == CASE s[13] % 8 = 0 /\ sq -> Plus(w, Dagger(K, w)) [] s[13] % 8 = 1 -> Plus(w, Mirrored(K, w))
                             [] s[13] % 8 = 2 -> Map(w, LAMBDA z : <<z[1], RZero>>) [] OTHER -> w
                  IN IF s[14] % 6 = 0 THEN LET i == (s[15] % len) + 1 IN [h.v EXCEPT ![i] = CAdd(@, CI(s[16] % 2, 1 - (s[16] % 2)))] ELSE h.v
Pw2(i) == <<CI(1, 0), CI(2, 0), CI(-1, 0), CI(0, 1), CI(0, -2)>>[(i % 5) + 1]
Live(x) == Alive(S, x)
IsBV(b) == b \in BViews
BAlive(b) == S.bn[b] # <<>> /\ \A i \in 1..BLen(S, b) : Alive(S, Part(b, i))
W(x) == Val(S, x)
Expr(f, a, b, c, k, q) == Ev(K, f, W(a), W(b), W(c), k, q)
\* an operand which mostly matches a, and sometimes not
Operand(a, s, i) == LET m == Sel(LAMBDA x : Live(x) /\ (IsS(x) <=> IsS(a)) /\ S.ob[x].m = S.ob[a].m /\ S.ob[x].sh = S.ob[a].sh)
                        o == Sel(LAMBDA x : Live(x) /\ (IsS(x) <=> IsS(a)) /\ (K = "imtime" => S.ob[x].sh = S.ob[a].sh))
                        q == Sel(LAMBDA x : Live(x) /\ (IsS(x) <=> IsS(a)) /\ S.ob[x].m = S.ob[a].m)
                    IN IF s[i] % 6 = 0 THEN P(o, s[i + 1]) ELSE IF s[i] % 6 = 1 THEN P(q, s[i + 1]) ELSE P(m, s[i + 1])
FormFor(a, s, i) == LET f == s[i] % 15 IN
  IF f \in Matrixy /\ ~Square(S, a) THEN 0 ELSE IF f \in ScalarOnly /\ ~IsS(a) THEN 9 ELSE f
Divides(f, b) == f = 13 => \A i \in 1..Len(W(b).v) : ~CIsZero(W(b).v[i])
Mats == <<<<CI(1, 0), CI(0, 0), CI(0, 0), CI(1, 0)>>, <<CI(0, 0), CI(1, 0), CI(2, 0), CI(0, -1)>>, <<CI(1, 1), CI(1, 0), CI(0, 0), CI(-1, 0)>>>>
Mat(s, i, len) == IF len = 4 THEN P(Mats, s[i]) ELSE Vec(Z, s, i, len)

Gen(k, s) ==
  LET live == Sel(Live) mg == Sel(LAMBDA x : Live(x) /\ ~IsS(x)) own == P(<<"A1", "A2", "A3", "S1", "S2">>, s[1])
      any == P(live, s[2])
      src == IF own \in SGfs THEN Sel(LAMBDA x : Live(x) /\ IsS(x)) ELSE mg
      sqs == Sel(LAMBDA x : Live(x) /\ ~IsS(x) /\ Square(S, x))
      bl == BSel(BAlive) IN
  CASE k = "new" -> LET m == IF s[3] % 5 < 3 THEN 1 ELSE (s[3] % 3) + 1 sh == IF own \in SGfs THEN <<>> ELSE P(Shapes, s[4]) IN
         [o |-> "new", d |-> own, m |-> m, sh |-> sh, v |-> Data(s, m, sh), how |-> s[17] % 3]
    [] live = <<>> -> No
    [] k \in {"copy", "mkherm", "mkreal", "conj", "h5", "reduce"} ->
         IF src = <<>> THEN No ELSE LET a == P(src, s[3]) IN
         IF k \in {"mkherm"} /\ ~Square(S, a) THEN No ELSE IF k \in {"mkherm", "mkreal"} /\ (K = "refreq" \/ (K # "imfreq" /\ k = "mkreal")) THEN No
         ELSE [o |-> k, d |-> own, a |-> a, n |-> (s[4] % 3) + 1, how |-> s[5] % 4]
    [] k = "full" -> LET p == Sel(LAMBDA x : Live(x) /\ Positive(K, S.ob[x].m) /\ (IsS(x) <=> own \in SGfs)) IN IF p = <<>> THEN No ELSE [o |-> "full", d |-> own, a |-> P(p, s[3])]
    [] k = "inv" -> IF sqs = <<>> \/ own \in SGfs THEN No ELSE LET a == P(sqs, s[3]) IN IF Regular(W(a)) THEN [o |-> "inv", d |-> own, a |-> a, how |-> s[4] % 2] ELSE No
    [] k = "invip" -> LET v == Sel(LAMBDA x : Live(x) /\ ~IsS(x) /\ Square(S, x)) IN IF v = <<>> THEN No ELSE LET d == P(v, s[3]) IN IF Regular(W(d)) THEN [o |-> "invip", d |-> d] ELSE No
    [] k \in {"mulL", "mulR"} -> IF sqs = <<>> \/ own \in SGfs THEN No ELSE LET a == P(sqs, s[3]) r == S.ob[a].sh[1] IN [o |-> k, d |-> own, a |-> a, n |-> r, l |-> Mat(s, 4, r * r)]
    [] k = "lgr" -> IF sqs = <<>> THEN No ELSE LET a == P(sqs, s[3]) d == P(sqs, s[4]) r == S.ob[a].sh[1] IN
         IF S.ob[d].m # S.ob[a].m \/ S.ob[d].sh # S.ob[a].sh \/ ~Apart(S, d, a) THEN No ELSE [o |-> "lgr", d |-> d, a |-> a, n |-> r, l |-> Mat(s, 5, r * r), r |-> Mat(s, 8, r * r)]
    [] k \in {"assign", "from"} ->
         LET a == any b == Operand(a, s, 3) c == Operand(a, s, 5) f == FormFor(a, s, 7)
             ds == Sel(LAMBDA x : (IsS(x) <=> IsS(a)) /\ (x \in Gfs \cup SGfs \/ Live(x)) /\ (x \in VParts \cup BParts => Live(x)))
             d == P(ds, s[8]) kk == P(Scalars, s[9]) q == P(Scalars, s[10])
             w == IF k = "from" THEN W(a) ELSE IF Divides(f, b) /\ (f = 14 => \A i \in 1..Len(W(a).v) : ~CIsZero(W(a).v[i])) THEN Expr(f, a, b, c, kk, q) ELSE Fail
             ops == IF k = "from" THEN {a} ELSE {a} \cup (IF Uses(f) > 1 THEN {b} ELSE {}) \cup (IF Uses(f) > 2 THEN {c} ELSE {}) IN
         IF k = "assign" /\ ~(Divides(f, b) /\ (f = 14 => \A i \in 1..Len(W(a).v) : ~CIsZero(W(a).v[i]))) THEN No
         ELSE IF k = "from" /\ d = a THEN No
         ELSE IF ~ShapeFits(S, d, w) \/ ~(\A x \in ops : CanRead(S, d, x, w)) THEN No
         ELSE IF k = "from" THEN [o |-> "from", d |-> d, a |-> a] ELSE [o |-> "assign", d |-> d, f |-> f, a |-> a, b |-> b, c |-> c, k |-> kk, q |-> q, how |-> s[11] % 4]
    [] k = "comp" -> LET d == any b == Operand(d, s, 3) f == P(<<0, 1, 2, 4, 5, 13>>, s[5]) f2 == IF f = 2 /\ ~Square(S, d) THEN 1 ELSE IF f = 13 /\ ~IsS(d) THEN 0 ELSE f
                         w == IF Divides(f2, b) THEN Expr(f2, d, b, b, P(Scalars, s[6]), CZero) ELSE Fail IN
         IF ~Divides(f2, b) THEN No ELSE IF Uses(f2) > 1 /\ ~CanRead(S, d, b, w) THEN No ELSE IF ~ShapeFits(S, d, w) THEN No
         ELSE IF d \in Owners /\ w.ok /\ ~Fits(S, d, w) THEN No
         ELSE [o |-> "comp", d |-> d, b |-> b, f |-> f2, k |-> P(Scalars, s[6])]
    [] k = "rebind" -> LET d == P(<<"V1", "V2", "T1", "T2">>, s[3]) q == Sel(LAMBDA x : Live(x) /\ (IsS(x) <=> IsS(d)) /\ x # d) IN IF q = <<>> THEN No ELSE [o |-> "rebind", d |-> d, a |-> P(q, s[4])]
    [] k = "slice" -> LET d == P(<<"V1", "V2">>, s[3]) IN IF mg = <<>> THEN No ELSE
         LET a == P(mg, s[4]) sh == S.ob[a].sh r0 == (s[5] % sh[1]) + 1 c0 == (s[6] % sh[2]) + 1 r1 == IF s[7] % 2 = 0 THEN r0 ELSE sh[1] c1 == IF s[8] % 2 = 0 THEN c0 ELSE sh[2] IN
         [o |-> "slice", d |-> d, a |-> a, r |-> <<r0, r1, c0, c1>>]
    [] k = "elem" -> IF mg = <<>> THEN No ELSE LET a == P(mg, s[4]) sh == S.ob[a].sh IN [o |-> "elem", d |-> P(<<"T1", "T2">>, s[3]), a |-> a, r |-> <<(s[5] % sh[1]) + 1, (s[6] % sh[2]) + 1>>]
    [] k = "asmat" -> LET q == Sel(LAMBDA x : Live(x) /\ IsS(x)) IN IF q = <<>> THEN No ELSE [o |-> "asmat", d |-> P(<<"V1", "V2">>, s[3]), a |-> P(q, s[4])]
    [] k = "fill" -> LET q == Sel(LAMBDA x : Live(x) /\ x \in Views \cup SViews /\ Square(S, x)) IN IF q = <<>> THEN No ELSE [o |-> "fill", d |-> P(q, s[3]), k |-> P(Z, s[4])]
    [] k = "set" -> [o |-> "set", d |-> any, p |-> (s[3] % Points(W(any))) + 1, t |-> (s[4] % Tot(S.ob[any].sh)) + 1, k |-> P(Z, s[5]), how |-> s[6] % 3]
    [] k = "point" -> [o |-> "point", d |-> any, p |-> (s[3] % Points(W(any))) + 1, v |-> Vec(Z, s, 4, Tot(S.ob[any].sh))]
    [] k = "fun" -> [o |-> "fun", d |-> any, k |-> P(Z, s[3]), q |-> P(Z, s[4])]
    [] k = "pos" -> IF K # "imfreq" THEN No ELSE LET d == P(<<"V1", "V2", "T1", "T2">>, s[3]) q == Sel(LAMBDA x : Live(x) /\ (IsS(x) <=> IsS(d))) IN IF q = <<>> THEN No ELSE [o |-> "pos", d |-> d, a |-> P(q, s[4])]
    [] k = "shift" -> LET q == Sel(LAMBDA x : Live(x) /\ Square(S, x) /\ x \notin BParts) IN IF K = "imtime" \/ q = <<>> THEN No ELSE [o |-> "shift", d |-> P(q, s[3]), k |-> P(Z, s[4]), how |-> s[5] % 2]
    [] k = "shiftm" -> LET q == Sel(LAMBDA x : Live(x) /\ ~IsS(x) /\ x \notin BParts) IN IF K = "imtime" \/ q = <<>> THEN No ELSE LET d == P(q, s[3]) IN [o |-> "shiftm", d |-> d, l |-> Vec(Z, s, 4, Tot(S.ob[d].sh)), how |-> s[7] % 2]
    [] k = "isherm" -> IF K = "refreq" \/ ~Square(S, any) THEN No ELSE [o |-> k, a |-> any]
    [] k = "isrtau" -> IF K # "imfreq" THEN No ELSE [o |-> k, a |-> any]
    [] k \in {"isreal", "parts"} -> [o |-> k, a |-> any]
    [] k = "eval" -> IF K # "imfreq" THEN No ELSE LET pos == Positive(K, S.ob[any].m) IN [o |-> "eval", a |-> any, p |-> IF pos /\ s[3] % 2 = 0 THEN -(s[4] % (Points(W(any)) - (IF Boson(S.ob[any].m) THEN 1 ELSE 0))) ELSE (s[4] % Points(W(any))) + 1, how |-> s[5] % 2]
    \* ---- block containers
    [] k = "bnew" -> IF mg = <<>> THEN No ELSE LET nm == P(NameSets, s[3]) a0 == P(mg, s[4])
                         same == Sel(LAMBDA x : Live(x) /\ ~IsS(x) /\ S.ob[x].m = S.ob[a0].m) d == P(<<"B1", "B2">>, s[5]) IN
         [o |-> "bnew", d |-> d, names |-> nm, a |-> [i \in 1..Len(nm) |-> P(same, s[5 + i])], how |-> s[9] % 2]
    [] bl = <<>> -> No
    [] k \in {"bcopy", "bmap", "bh5"} -> LET d == P(<<"B1", "B2">>, s[3]) a == P(bl, s[4]) IN IF a = d THEN No ELSE
         IF \E i, j \in 1..MaxBlocks : Alive(S, Part(a, i)) /\ Alive(S, Part(d, j)) /\ Addr(S, Part(a, i)) \cap Addr(S, Part(d, j)) # {} /\ k # "bcopy" /\ FALSE THEN No
         ELSE [o |-> k, d |-> d, a |-> a, how |-> s[5] % 2]
    [] k = "bview" -> LET d == P(<<"W1", "W2">>, s[3]) a == P(bl, s[4]) IN IF a = d THEN No ELSE [o |-> "bview", d |-> d, a |-> a]
    [] k \in {"bassign", "bfrom"} ->
         LET a == P(bl, s[3]) mb == BSel(LAMBDA x : BAlive(x) /\ BLen(S, x) = BLen(S, a)) b == IF s[4] % 3 = 0 THEN P(bl, s[5]) ELSE P(mb, s[5]) c == P(mb, s[6])
             d == P(BSel(LAMBDA x : BAlive(x) \/ x \in Blocks), s[7]) f == P(<<0, 1, 2, 3, 4, 5, 6, 7, 9, 12>>, s[8]) kk == P(Scalars, s[9]) q == P(Scalars, s[10]) len == BLen(S, a)
             w == [i \in 1..len |-> IF k = "bfrom" THEN W(Part(a, i)) ELSE Expr(f, Part(a, i), Part(b, i), Part(c, i), kk, q)] IN
         IF k = "bfrom" /\ (a = d \/ (a \in Blocks /\ d \in Blocks)) THEN No
         ELSE IF k = "bassign" /\ Uses(f) > 1 /\ BLen(S, b) # len THEN [o |-> k, d |-> d, f |-> f, a |-> a, b |-> b, c |-> c, k |-> kk, q |-> q]
         ELSE IF d \in BViews /\ BLen(S, d) # len THEN [o |-> k, d |-> d, f |-> f, a |-> a, b |-> b, c |-> c, k |-> kk, q |-> q]
         ELSE IF (\E i \in 1..len : ~w[i].ok) \/ (f = 2 /\ \E i \in 1..len : ~Square(S, Part(a, i))) THEN No
         ELSE IF d \in BViews /\ \E i \in 1..len : S.ob[Part(d, i)].m # w[i].m \/ S.ob[Part(d, i)].sh # w[i].sh THEN No
         ELSE IF \E i, j \in 1..len : \E x \in {a, b, c} : Alive(S, Part(d, i)) /\ ~(IF i = j THEN CanRead(S, Part(d, i), Part(x, j), w[i]) ELSE Addr(S, Part(d, i)) \cap Addr(S, Part(x, j)) = {}) THEN No
         ELSE IF d \in Blocks /\ \E i \in (len + 1)..MaxBlocks : Alive(S, Part(d, i)) THEN No
         ELSE [o |-> k, d |-> d, f |-> f, a |-> a, b |-> b, c |-> c, k |-> kk, q |-> q]
    [] k = "bcomp" -> LET d == P(bl, s[3]) mb == BSel(LAMBDA x : BAlive(x) /\ BLen(S, x) = BLen(S, d)) b == P(mb, s[4]) f == P(<<0, 1, 4, 5>>, s[5]) kk == P(Scalars, s[6]) len == BLen(S, d) IN
         IF \E i \in 1..len : LET w == Expr(f, Part(d, i), Part(b, i), Part(b, i), kk, kk) IN ~w.ok \/ ~Fits(S, Part(d, i), w) THEN No
         ELSE IF \E i, j \in 1..len : IF i = j THEN ~Apart(S, Part(d, i), Part(b, j)) ELSE Addr(S, Part(d, i)) \cap (Addr(S, Part(b, j)) \cup Addr(S, Part(d, j))) # {} THEN No
         ELSE [o |-> "bcomp", d |-> d, b |-> b, f |-> f, k |-> kk]
    [] k = "bfill" -> LET q == SelectSeq(bl, LAMBDA x : x \in BViews /\ \A i \in 1..BLen(S, x) : Square(S, Part(x, i))) IN IF q = <<>> THEN No ELSE [o |-> "bfill", d |-> P(q, s[3]), k |-> P(Z, s[4])]
    [] k = "biter" -> [o |-> "biter", a |-> P(bl, s[3])]
    [] OTHER -> No

Good(T) == \A i \in (Len(S.mem) + 1)..Len(T.mem) : ~IsBad(T.mem[i])
Small1(T) == \A x \in Owners : \A i \in 1..Len(T.ob[x].at) : Small(T.mem[T.ob[x].at[i]], 60)
Init == S = Empty /\ opj = "{}" /\ n = 0 /\ K \in {"imfreq", "imtime", "refreq"}
Dice == TLCEval([j \in 1..24 |-> RandomElement(0..(9999 + 0 * n))])
Step0(op) == Step(S, K, op)
Next == /\ n < MaxOps
        /\ \E j \in 18..23 : \E s \in {Dice} : \E op \in {TLCEval(Gen(IF n < 3 THEN "new" ELSE P(Kinds, s[j] + j), s))} :
             /\ op.o # "none"
             /\ \E r \in {TLCEval(Step0(op))} :
                  /\ Small1(r.S)
                  /\ S' = r.S /\ n' = n + 1 /\ K' = K
                  /\ opj' = ToJson([op |-> op, K |-> K, live |-> Sel(LAMBDA x : Alive(r.S, x)), bl |-> BSel(LAMBDA b : r.S.bn[b] # <<>> /\ \A i \in 1..BLen(r.S, b) : Alive(r.S, Part(b, i)))])
Spec == Init /\ [][Next]_<<S, K, opj, n>>
Inv == Invariant(S)
GfKinds == <<"new", "new", "copy", "assign", "assign", "assign", "comp", "comp", "from", "from", "rebind", "slice", "elem", "asmat", "fill", "set", "point", "fun", "conj", "mulL", "mulR", "lgr", "inv", "invip",
            "mkherm", "mkreal", "pos", "full", "h5", "reduce", "shift", "shiftm", "isherm", "isrtau", "isreal", "parts">>
BlockKinds == <<"new", "assign", "comp", "rebind", "slice", "set", "point", "bnew", "bcopy", "bmap", "bh5", "bview", "bassign", "bassign", "bassign", "bfrom", "bfrom", "bcomp", "bfill", "biter">>
===============================================================================
