-------------------------- MODULE TraceSuperLattice --------------------------
EXTENDS SuperLattice, Json, IOUtils
Q == INSTANCE Rational
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, lat
ev == Trace[i]
Func(tab) == TLCEval([R \in {tab[k][1] : k \in DOMAIN tab} |-> tab[CHOOSE k \in DOMAIN tab : tab[k][1] = R][2]])
OnceEach(tab) == \A a, b \in DOMAIN tab : tab[a][1] = tab[b][1] => a = b
RealOf(units, x) == [c \in 1..Len(units) |-> ISum(1..Len(units), LAMBDA r : x[r] * units[r][c])]
Flat(f, N, no) == [k \in 1..(N * no) |-> f[Site(N, k)][Orb(N, k)]]
Here(e) == [hop |-> e.hop, pos |-> e.pos, names |-> e.names, units |-> e.units, norb |-> e.norb, ndim |-> e.ndim]
Names(N, old) == [k \in 1..(N * Len(old)) |-> IF Len(old) = 1 THEN ToString(Site(N, k)) ELSE IF N = 1 THEN old[Orb(N, k)] ELSE ToString(Site(N, k)) \o "_" \o old[Orb(N, k)]]
Valid(e) == LET n == Ab(Det(e.U)) IN n # 0 /\ IF e.auto THEN TRUE ELSE Len(e.sites) = n /\ \A x \in ToSet(e.sites) : Inside(e.U, x)
SuperOk ==
  LET U == ev.U N == Ab(Det(U)) d == lat.ndim cs == ev.cs no == lat.norb
      F == Fold(U, cs, Func(lat.hop))
  IN /\ Valid(ev) /\ ev.ncs = N /\ Len(cs) = N
     /\ IF ev.auto THEN ToSet(cs) = Sites(U) ELSE cs = ev.sites /\ ToSet(cs) = Sites(U)
     /\ ev.ndim = d /\ ev.norb = N * no /\ OnceEach(ev.hop)
     /\ Support(Func(ev.hop)) = Support(IF ev.remove THEN NoInternal(F, d) ELSE F)
     /\ ev.units = [r \in 1..d |-> RealOf(lat.units, U[r])]
     /\ Len(ev.pos) = N * no /\ \A k \in 1..(N * no) : ev.pos[k] = (LET x == RealOf(lat.units, cs[Site(N, k)]) p == lat.pos[Orb(N, k)] IN [c \in 1..3 |-> p[c] + IF c > d THEN 0 ELSE x[c]])
     /\ ev.names = Names(N, lat.names)
     /\ \A k \in DOMAIN ev.maps : LET m == ev.maps[k] IN m[2] = Cell(U, m[1]) /\ m[3] \in 0..(N - 1) /\ cs[m[3] + 1] = Home(U, m[1]) /\ m[4] = m[1]
     /\ \A k \in DOMAIN ev.packs : LET p == ev.packs[k] IN p[3] = Index(N, p[1] + 1, p[2] + 1) - 1 /\ p[4] = <<p[1], p[2]>>
FoldOk == LET F == Fold(ev.U, ev.cs, Func(ev.t)) IN OnceEach(ev.F) /\ Support(Func(ev.F)) = Support(IF ev.remove THEN NoInternal(F, lat.ndim) ELSE F) /\ (ev.cz => ev.made = Len(ev.F)) /\ (~ev.cz => ev.made = 0)
\* ---- paths: k = a + (b - a) j / (num - 1); distances along the path
Frac(j) == IF ev.num = 1 THEN Q!RZero ELSE Q!R(j, ev.num - 1)
Qr(x) == Q!R(x[1], x[2])
Cart(v) == [c \in 1..3 |-> ISum(1..3, LAMBDA r : v[r] * ev.cell[r][c])]
At2(s, j) == LET a == ev.seg[s][1] b == ev.seg[s][2] x == IF ev.rel THEN a ELSE Cart(a) y == IF ev.rel THEN b ELSE Cart(b) IN [c \in 1..3 |-> Q!RAdd(<<x[c], 1>>, Q!RMulI(Frac(j), y[c] - x[c]))]
Len2(s) == LET v == Cart(VSub(ev.seg[s][2], ev.seg[s][1])) IN ISum(1..3, LAMBDA c : v[c] * v[c])
PathOk == LET n == ev.num S == Len(ev.seg) IN
  /\ Len(ev.k) = S * n /\ Len(ev.d) = S * n /\ Len(ev.t) = S + 1 /\ Qr(ev.t[1]) = Q!RZero
  /\ \A s \in 1..S : Qr(ev.t[s + 1]) = Qr(ev.d[s * n])
  /\ \A s \in 1..S : \A j \in 0..(n - 1) : LET q == (s - 1) * n + j + 1 IN
       /\ [c \in 1..3 |-> Qr(ev.k[q][c])] = At2(s, j)
       /\ LET from == IF s = 1 THEN Q!RZero ELSE Qr(ev.d[(s - 1) * n]) step == Q!RSub(Qr(ev.d[q]), from) IN step[1] >= 0 /\ Q!RMul(step, step) = Q!RMulI(Q!RMul(Frac(j), Frac(j)), Len2(s))
\* ---- Wannier90: the elements in the file are in units of 1/8
W90Ok == LET s == ev.src n == s.n nn == IF s.spin THEN 2 * n ELSE n IN
  IF s.unit \notin {"Ang", "Bohr"} THEN ev.refused
  ELSE /\ ~ev.refused /\ ev.norb = nn /\ Len(ev.hop) = Len(s.R) /\ {ev.hop[k][1] : k \in DOMAIN ev.hop} = ToSet(s.R)
       /\ [r \in 1..3 |-> [c \in 1..3 |-> Qr(ev.units[r][c])]] = [r \in 1..3 |-> [c \in 1..3 |-> <<s.units[r][c], 1>>]]
       /\ ev.names = [k \in 1..nn |-> ToString(k - 1)] /\ ev.pos = [k \in 1..nn |-> <<0, 0, 0>>]
       /\ \A k \in DOMAIN ev.hop : LET q == CHOOSE x \in DOMAIN s.R : s.R[x] = ev.hop[k][1] IN
            \A a, b \in 1..nn : \A c \in 1..2 :
              Qr(ev.hop[k][2][a][b][c]) = Q!RAdd(IF (a - 1) \div n = (b - 1) \div n THEN Q!R(s.H[q][((a - 1) % n) + 1][((b - 1) % n) + 1][c], 8 * s.deg[q]) ELSE Q!RZero,
                                                 IF s.hasadd /\ s.R[q] = <<0, 0, 0>> THEN <<s.add[a][b][c], 1>> ELSE Q!RZero)
PythOk == LET s == ev.src n == s.n
              Rs == {<<0, 0, 0>>} \cup {s.h[k][4] : k \in DOMAIN s.h} \cup {VNeg(s.h[k][4]) : k \in DOMAIN s.h}
              El(R, a, b) == CAdd(IF R = <<0, 0, 0>> /\ a = b THEN <<s.site[a], 0>> ELSE Zero,
                               CAdd(CSum({k \in DOMAIN s.h : s.h[k][4] = R /\ s.h[k][2] = a - 1 /\ s.h[k][3] = b - 1}, LAMBDA k : s.h[k][1]),
                                    CSum({k \in DOMAIN s.h : VNeg(s.h[k][4]) = R /\ s.h[k][3] = a - 1 /\ s.h[k][2] = b - 1}, LAMBDA k : Conj(s.h[k][1]))))
          IN /\ Func(ev.hop) = [R \in Rs |-> [a \in 1..n |-> [b \in 1..n |-> El(R, a, b)]]] /\ OnceEach(ev.hop)
             /\ ev.units = s.units /\ ev.pos = s.orb /\ ev.names = [k \in 1..n |-> ToString(k - 1)]
\* ---- a patch is cut into triangles that cover its (convex) polygons
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Shoelace(p) == Ab(ISum(1..Len(p), LAMBDA k : LET a == p[k] b == p[(k % Len(p)) + 1] IN a[1] * b[2] - a[2] * b[1]))
PatchOk == LET n == Len(ev.tri) \div 3 corners == UNION {ToSet(ev.poly[k]) : k \in DOMAIN ev.poly}
               area == ISum(DOMAIN ev.poly, LAMBDA k : Shoelace(ev.poly[k])) IN
  /\ ev.ok /\ Len(ev.tri) % 3 = 0 /\ n = ISum(DOMAIN ev.poly, LAMBDA k : Len(ev.poly[k]) - 2)
  /\ ToSet(ev.tri) \subseteq corners
  /\ ISum(1..n, LAMBDA k : Ab(Cross(ev.tri[3 * k - 2], ev.tri[3 * k - 1], ev.tri[3 * k]))) = area
  /\ Qr(ev.weight) = Q!R(area, 2)
Emb(u, x) == [c \in 1..3 |-> ISum(1..Len(x), LAMBDA r : x[r] * u[r][c])]
PointOk == LET u == ev.units a == Emb(u, ev.a) b == Emb(u, ev.b) s == ev.s v == ev.v IN
  /\ ev.value = a /\ ev.add = VAdd(ev.a, ev.b) /\ ev.sub = VSub(ev.a, ev.b) /\ ev.neg = VNeg(ev.a) /\ ev.sum = VAdd(a, b)
  /\ ev.mul = [c \in 1..3 |-> s * a[c]] /\ ev.rmul = ev.mul /\ ev.addv = VAdd(a, v) /\ ev.raddv = ev.addv /\ ev.radd = ev.addv /\ ev.addm = ev.addv
  /\ ev.subv = VSub(a, v) /\ ev.rsub = VSub(v, a) /\ \A c \in 1..3 : Qr(ev.div[c]) = Q!R(a[c], 4)
  /\ ev.item = a /\ ev.len = Len(ev.a) /\ ev.isp = <<TRUE, TRUE, TRUE>> /\ ev.same
Step ==
  /\ CASE ev.e = "Reset" -> TRUE
       [] ev.e = "Base" -> TRUE
       [] ev.e = "Refused" -> ~(IF ev.auto THEN Det(ev.U) # 0 ELSE Valid(ev))
       [] ev.e = "Super" -> SuperOk
       [] ev.e = "Fold" -> FoldOk
       [] ev.e = "Bands" -> ev.nk = ev.n /\ ev.same
       [] ev.e = "Same" -> ev.eq /\ ev.a = ev.b
       [] ev.e = "Eq" -> (ev.r <=> (ev.a.units = ev.b.units /\ ev.a.ndim = ev.b.ndim /\ ev.a.norb = ev.b.norb /\ ev.a.hop = ev.b.hop)) /\ ~ev.ne
       [] ev.e = "Meshes" -> ev.ok
       [] ev.e = "Path" -> PathOk
       [] ev.e = "W90" -> W90Ok
       [] ev.e = "PythTB" -> PythOk
       [] ev.e = "Patch" -> PatchOk
       [] ev.e = "Point" -> PointOk
       [] ev.e = "Dos" -> ev.ok /\ Len(ev.r) = ev.n /\ \A b \in 1..ev.n : ev.r[b] = [k \in 1..3 |-> (k - 1) + 10 * (b - 1)] /\ ev.eps[b] = <<0, 1, 2>> /\ ev.names[b] = "nm"
       [] OTHER -> FALSE
  /\ lat' = IF ev.e \in {"Base", "Super"} THEN Here(ev) ELSE lat
TInit == i = 1 /\ lat = <<>>
TNext == i <= Len(Trace) /\ Step /\ i' = i + 1
TSpec == TInit /\ [][TNext]_<<i, lat>>
TraceAccepted == LET k == TLCGet("stats").diameter IN IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", k>>, FALSE)
===============================================================================
