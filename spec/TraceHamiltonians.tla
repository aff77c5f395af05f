-------------------------- MODULE TraceHamiltonians --------------------------
EXTENDS Hamiltonians, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
ev == Trace[i]
\* ---- names of the modes of the event
N_ == ev.n
Ns == Len(ev.spins)
Kind(s, o) == CASE ev.kind = "map" -> ev.map[(s - 1) * N_ + o]
                [] ev.kind = "spin" -> ev.spins[s] \o ":" \o ToString(o - 1)
                [] OTHER -> ev.spins[s] \o "_" \o ToString(o - 1) \o ":0"
Table == [x \in {Kind(s, o) : s \in 1..Ns, o \in 1..N_} |-> CHOOSE k \in 1..(Ns * N_) : \E s \in 1..Ns, o \in 1..N_ : k = Mode(N_, s, o) /\ Kind(s, o) = x]
Word(m, tab) == [k \in 1..Len(m) |-> IF m[k][1] THEN tab[m[k][2]] ELSE -tab[m[k][2]]]
Oper(ts, tab) == SumOver(1..Len(ts), LAMBDA k : Times(<<ts[k][2], ts[k][3]>>, NormalOrder(Word(ts[k][1], tab))))
Known(ts, tab) == \A k \in 1..Len(ts) : \A j \in 1..Len(ts[k][1]) : ts[k][1][j][2] \in DOMAIN tab
Equal(ts, F) == LET tab == TLCEval(Table) IN Known(ts, tab) /\ Oper(ts, tab) = F
Real4(u) == \A a, b, c, d \in 1..Len(u) : u[a][b][c][d][2] = 0
Int4(u) == u
\* ---- angular momentum matrix, times 2: phase and square of the element (r, c)
LMat(w, n, r, c) ==
  LET m2 == 2 * c - n - 1 IN
  CASE w = "z" -> IF r = c THEN <<<<Sgn(m2), 0>>, m2 * m2>> ELSE <<Zero, 0>>
    [] w = "+" -> <<<<Sgn(LPlus2(n, r, c)), 0>>, LPlus2(n, r, c)>>
    [] w = "-" -> <<<<Sgn(LPlus2(n, c, r)), 0>>, LPlus2(n, c, r)>>
    [] w = "x" -> IF r > c THEN <<<<Sgn(LPlus2(n, r, c)), 0>>, LPlus2(n, r, c)>> ELSE <<<<Sgn(LPlus2(n, c, r)), 0>>, LPlus2(n, c, r)>>
    [] w = "y" -> IF r > c THEN <<<<0, -Sgn(LPlus2(n, r, c))>>, LPlus2(n, r, c)>> ELSE <<<<0, Sgn(LPlus2(n, c, r))>>, LPlus2(n, c, r)>>
\* (x and y come with 1/2, so that squares get 1/4)
LSq(w, q) == IF w \in {"x", "y"} THEN Q!R(q, 4) ELSE <<q, 1>>
Eps(a, b, c) == IF <<a, b, c>> \in {<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>} THEN 1 ELSE IF <<a, b, c>> \in {<<2, 1, 3>>, <<3, 2, 1>>, <<1, 3, 2>>} THEN -1 ELSE 0
Axis(w) == CASE w = "x" -> 1 [] w = "y" -> 2 [] w = "z" -> 3 [] OTHER -> 0
\* in the cubic basis of a p shell, (L_k)_ab = -i eps_kab
LP3x(a, b) == <<0, -Eps(1, a, b)>>
LP3y(a, b) == <<0, -Eps(2, a, b)>>
LElem(w, n, a, b) == IF ev.basis = "cubic" THEN LET z == CASE w \in {"x", "y", "z"} -> <<0, -Eps(Axis(w), a, b)>>
                                                            [] w = "+" -> CAdd(LP3x(a, b), CMul(<<0, 1>>, LP3y(a, b)))
                                                            [] OTHER -> CAdd(LP3x(a, b), CMul(<<0, -1>>, LP3y(a, b)))
                                                IN <<z, IF z = Zero THEN <<0, 1>> ELSE <<4, 1>>>>
                     ELSE LET e == LMat(w, n, a, b) IN <<e[1], LSq(w, e[2])>>
Part(s, q) == IF s = 0 THEN <<0, <<0, 1>>>> ELSE <<s, q>>
LOk == LET tab == TLCEval(Table)
           want == {t \in (1..Ns) \X (1..N_) \X (1..N_) : LElem(ev.what, N_, t[2], t[3])[1] # Zero}
           row(k) == ev.r[k]
       IN /\ Known(ev.r, tab) /\ Len(ev.r) = Cardinality(want)
          /\ \A t \in want : \E k \in 1..Len(ev.r) : LET e == LElem(ev.what, N_, t[2], t[3]) IN
                Word(row(k)[1], tab) = <<Mode(N_, t[1], t[2]), -Mode(N_, t[1], t[3])>> /\ row(k)[2] = Part(e[1][1], e[2]) /\ row(k)[3] = Part(e[1][2], e[2])
\* ---- cubic harmonics: cos and sin combinations of Y_m and Y_-m
Names(l, conv) == CASE l = 0 -> <<"s">>
  [] l = 1 -> IF conv \in {"wannier90", "qe"} THEN <<"z", "x", "y">> ELSE <<"x", "y", "z">>
  [] l = 2 -> (CASE conv = "wien2k" -> <<"z^2", "x^2-y^2", "xy", "yz", "xz">> [] conv \in {"wannier90", "qe"} -> <<"z^2", "xz", "yz", "x^2-y^2", "xy">> [] OTHER -> <<"xy", "yz", "z^2", "xz", "x^2-y^2">>)
  [] l = 3 -> <<"x(x^2-3y^2)", "z(x^2-y^2)", "xz^2", "z^3", "yz^2", "xyz", "y(3x^2-y^2)">>
Harmonic(x) == CASE x \in {"s", "z", "z^2", "z^3"} -> <<"cos", 0>>
  [] x \in {"x", "xz", "xz^2"} -> <<"cos", 1>> [] x \in {"y", "yz", "yz^2"} -> <<"sin", 1>>
  [] x \in {"x^2-y^2", "z(x^2-y^2)"} -> <<"cos", 2>> [] x \in {"xy", "xyz"} -> <<"sin", 2>>
  [] x = "x(x^2-3y^2)" -> <<"cos", 3>> [] x = "y(3x^2-y^2)" -> <<"sin", 3>>
Half == <<1, 2>>
None_ == <<0, <<0, 1>>>>
\* coefficient of Y_m in the harmonic
Coef(h, m) == IF AbsJ(m) # h[2] THEN <<None_, None_>>
  ELSE IF h[2] = 0 THEN <<<<1, <<1, 1>>>>, None_>>
  ELSE IF h[1] = "cos" THEN <<<<IF m < 0 THEN 1 ELSE MinusOne(h[2]), Half>>, None_>>
  ELSE <<None_, <<IF m < 0 THEN 1 ELSE -MinusOne(h[2]), Half>>>>
RowIs(row, l, h) == \A m \in -l..l : row[m + l + 1] = Coef(h, m)
UpToPhase(row, l, h) == \E ph \in {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>} : \A m \in -l..l :
  LET c == Coef(h, m) re == c[1] im == c[2] r == row[m + l + 1]
      z == CMul(ph, <<re[1], im[1]>>) q == IF re[1] # 0 THEN re[2] ELSE im[2]
  IN r = <<Part(z[1], q), Part(z[2], q)>>
Harmonics(l) == {<<"cos", m>> : m \in 0..l} \cup {<<"sin", m>> : m \in 1..l}
CubicOk == LET l == ev.l IN
  IF ev.conv \notin {"triqs", "vasp", "wien2k", "wannier90", "qe"} \/ l > 3 \/ (l = 3 /\ ev.conv \in {"wien2k", "wannier90", "qe"}) THEN ev.thrown
  ELSE /\ ~ev.thrown /\ Len(ev.T) = 2 * l + 1
       /\ ev.names = Names(l, "triqs")
       /\ IF ev.conv = "wien2k" /\ l = 2 THEN \A h \in Harmonics(l) : Cardinality({r \in 1..5 : UpToPhase(ev.T[r], l, h)}) = 1
          ELSE \A r \in 1..(2 * l + 1) : RowIs(ev.T[r], l, Harmonic(Names(l, ev.conv)[r]))
\* ---- sub-shells
Where(which, conv) == LET ns == Names(2, conv) set == IF which = "t2g" THEN {"xy", "yz", "xz"} ELSE {"z^2", "x^2-y^2"} IN SelectSeq(<<1, 2, 3, 4, 5>>, LAMBDA k : ns[k] \in set)
SubOk == IF ev.conv \notin {"triqs", "vasp", "wien2k", "wannier90", "qe"} THEN ev.thrown
  ELSE LET p == Where(ev.which, ev.conv) k == Len(p) IN
    /\ ~ev.thrown /\ ev.shape = [j \in 1..ev.rank |-> k]
    /\ IF ev.rank = 2 THEN ev.flat = [x \in 1..(k * k) |-> 5 * (p[((x - 1) \div k) + 1] - 1) + p[((x - 1) % k) + 1] - 1]
       ELSE ev.flat = [x \in 1..(k * k * k * k) |-> LET d(q) == p[(((x - 1) \div q) % k) + 1] - 1 IN 125 * d(k * k * k) + 25 * d(k * k) + 5 * d(k) + d(1)]
\* ---- Coulomb tensors
RAddAll(n, f(_)) == FoldSet(LAMBDA x, a : Q!RAdd(a, f(x)), Q!RZero, 1..n)
ScaleR(q, k) == Q!RMulI(q, k)
DirSum(l, F, m, mp) == RAddAll(Len(F), LAMBDA k : ScaleR(AlphaDir(l, 2 * (k - 1), m, mp), F[k]))
ExcSum(l, F, m, mp) == RAddAll(Len(F), LAMBDA k : ScaleR(AlphaExc(l, 2 * (k - 1), m, mp), F[k]))
Qr(x) == Q!R(x[1], x[2])
SlaterUOk == LET l == ev.l n == 2 * l + 1 IN
  /\ ev.sym /\ ev.real /\ ev.refused /\ ev.same /\ ev.broken = <<>>
  /\ \A a, b \in 1..n : Qr(ev.dir[a][b]) = DirSum(l, ev.F, a - l - 1, b - l - 1) /\ Qr(ev.exc[a][b]) = ExcSum(l, ev.F, a - l - 1, b - l - 1)
  /\ Qr(ev.inv[1]) = <<ev.F[1], 1>> /\ Qr(ev.inv[2]) = <<ev.F[1], 1>> /\ Qr(ev.inv[3]) = Qr(ev.inv[4])
  /\ \A k \in 1..2 : ev.m2[k][1] = 0 /\ ev.m2[k][2] # 0
UJOk ==
  /\ ev.len = ev.l + 1 /\ ev.same
  /\ Qr(ev.back[1]) = <<ev.U, 1>> /\ Qr(ev.back[2]) = <<ev.J, 1>> /\ Qr(ev.F0) = <<ev.U, 1>>
  /\ (ev.J # 0 => LET want == CASE ev.l = 1 -> <<<<1, 1>>>> [] ev.l = 2 -> <<<<1, 1>>, <<63, 100>>>> [] OTHER -> <<<<1, 1>>, <<451, 675>>, <<1001, 2025>>>> IN \A k \in 1..ev.l : Qr(ev.ratios[k]) = want[k])
  /\ Qr(ev.Uavg) = <<ev.U, 1>> /\ Qr(ev.UmJ) = <<ev.U - ev.J, 1>>
  /\ Qr(ev.there[1]) = <<ev.F[1], 1>> /\ (ev.l = 1 => Qr(ev.there[2]) = <<ev.F[2], 1>>)
SignSq(x) == IF x[1] = 0 THEN <<0, Q!RZero>> ELSE <<x[1], Qr(x[2])>>
Oper1(ts) == SumOver(1..Len(ts), LAMBDA k : Times(<<ts[k][2], ts[k][3]>>, NormalOrder(ts[k][1])))
Step ==
  CASE ev.e = "Reset" -> TRUE
    [] ev.e = "Slater" -> IF ~ev.cx /\ ~Real4(ev.U) THEN ev.thrown ELSE ~ev.thrown /\ Equal(ev.r, Slater(Ns, N_, ev.U)) /\ Equal(ev.dumped, Slater(Ns, N_, ev.U))
    [] ev.e = "Kanamori" -> ~ev.thrown /\ LET F == TLCEval(Kanamori(Ns, N_, ev.U, ev.Up, ev.J)) IN Equal(ev.r, F) /\ Equal(ev.dumped, F)
    [] ev.e = "Density" -> ~ev.thrown /\ LET F == TLCEval(Density(Ns, N_, ev.U, ev.Up)) IN Equal(ev.r, F) /\ Equal(ev.dumped, F)
    [] ev.e = "Obs" -> Equal(ev.r, CASE ev.what = "N" -> Number(Ns, N_) [] ev.what = "S2" -> Spin2(N_) [] OTHER -> Spin(ev.what, N_))
    [] ev.e = "L" -> LOk
    [] ev.e = "Algebra" -> ev.bad = <<>>
    [] ev.e = "Diag" -> LET tab == TLCEval(Table) IN Known(ev.H, tab) /\ Oper(ev.r, tab) = DiagonalPart(Oper(ev.H, tab))
    [] ev.e = "Real" -> LET tab == TLCEval(Table) F == Oper(ev.H, tab) IN IF \E m \in DOMAIN F : AbsJ(F[m][2]) > ev.tol THEN ev.thrown ELSE ~ev.thrown /\ Oper(ev.r, tab) = RealV(F)
    [] ev.e = "Struct" -> /\ ev.refused /\ Len(ev.kinds) = Ns * N_ /\ (\A s \in 1..Ns, o \in 1..N_ : ev.kinds[Mode(N_, s, o)] = Kind(s, o))
                          /\ ev.st = (IF ev.kind = "spin" THEN [s \in 1..Ns |-> <<ev.spins[s], N_>>] ELSE [k \in 1..(Ns * N_) |-> <<ev.spins[((k - 1) \div N_) + 1] \o "_" \o ToString((k - 1) % N_), 1>>])
    [] ev.e = "KanU" -> /\ ev.refused /\ ev.a = KanU(N_, ev.U, ev.J, ev.Up) /\ ev.b = KanUp(N_, ev.U, ev.J, ev.Up)
                        /\ ev.f = Kan4(N_, ev.U, ev.J, ev.Up, ev.Jc) /\ ev.ra = ev.a /\ ev.rb = ev.b
    [] ev.e = "Reduce" -> \A a, b \in 1..N_ : ev.b[a][b] = ev.U[a][b][a][b][1] /\ ev.a[a][b] = ev.U[a][b][a][b][1] - ev.U[a][b][b][a][1]
    [] ev.e = "Transform" -> InNewBasis(N_, ev.T, ev.V) = OneSpin(N_, ev.U)
    [] ev.e = "Sub" -> SubOk
    [] ev.e = "Cubic" -> CubicOk
    [] ev.e = "ThreeJ" -> LET a == ev.a IN SignSq(ev.r) = ThreeJ(a[1], a[2], a[3], a[4], a[5], a[6]) /\ SignSq(ev.g) = Clebsch(a[1], a[2], a[3], a[4], a[5], -a[6])
    [] ev.e = "Alpha" -> LET a == ev.a IN /\ (ev.sq => SignSq(ev.r) = Alpha(a[1], a[2], a[3], a[4], a[5], a[6]))
                                          /\ (ev.rational => Qr(ev.d) = (IF a[3] = a[5] /\ a[4] = a[6] THEN AlphaDir(a[1], a[2], a[3], a[4]) ELSE AlphaExc(a[1], a[2], a[3], a[4])))
    [] ev.e = "UJ" -> UJOk
    [] ev.e = "SlaterU" -> SlaterUOk
    [] ev.e = "ExtractH" -> FromH(ev.t) = Oper1(ev.H)
    [] OTHER -> FALSE
TInit == i = 1
TNext == i <= Len(Trace) /\ Step /\ i' = i + 1
TSpec == TInit /\ [][TNext]_i
TraceAccepted == LET k == TLCGet("stats").diameter IN IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", k>>, FALSE)
===============================================================================
