---------------------------- MODULE TraceAtomDiag ----------------------------
EXTENDS AtomDiag, Rational, Json, IOUtils
VARIABLES l, hdr
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
Is(e) == ev.e = e
Op(t) == [m \in {t[i][1] : i \in 1..Len(t)} |-> LET i == CHOOSE i \in 1..Len(t) : t[i][1] = m IN <<t[i][2], t[i][3]>>]
OpC(t) == Clean(Op(t))
S(x) == {x[i] : i \in 1..Len(x)}
Psi(t) == Clean([f \in {S(t[i][1]) : i \in 1..Len(t)} |-> LET i == CHOOSE i \in 1..Len(t) : S(t[i][1]) = f IN <<t[i][2], t[i][3]>>])
Listing(b) == [k \in 1..Len(b) |-> [i \in 1..Len(b[k]) |-> S(b[k][i])]]
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1] + 2
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
\* what is shown of the atomic problem a
ShownOk(a) ==
  /\ Listing(ev.blocks) = a.blocks
  /\ ev.un /\ ev.ens = ev.es /\ ev.dims2 = ev.dims /\ ev.dims = [b \in 1..NB(a) |-> Len(a.blocks[b])] /\ ev.full = 2 ^ a.n
  /\ Concat(ev.flat) = [i \in 1..Cardinality(a.kept) |-> i - 1] /\ \A b \in 1..NB(a) : Len(ev.flat[b]) = Len(a.blocks[b])
  \* H = U (E + E0) U^+; energies ascend within the subspaces, which are in the order of their lowest energies; the lowest is zero
  /\ Len(ev.hm) = NB(a) /\ \A b \in 1..NB(a) : ev.hm[b] = Matrix(a, [i \in 1..Len(a.blocks[b]) |-> a.ht[a.blocks[b][i]]], b) /\ Len(ev.es[b]) = Len(a.blocks[b]) /\ Ascending(ev.es[b])
  /\ Ascending([b \in 1..NB(a) |-> ev.es[b][1]]) /\ ev.es[1][1] = 0 /\ \A b \in 1..NB(a) : ev.es[b][1] >= 0
  /\ \A k \in 1..a.n, b \in 1..NB(a) : /\ Shows(a, MonoCols(a, <<-k>>, b), ev.c[k][b].to, ev.c[k][b].m)
                                       /\ Shows(a, MonoCols(a, <<k>>, b), ev.cd[k][b].to, ev.cd[k][b].m)
  /\ IF {} \in a.kept THEN ev.vi + 1 = BlockOf(a, {}) /\ ev.vac = <<<<<<>>, 1, 0>>>> ELSE ev.vi = -1 /\ ev.vac = <<>>
  /\ ev.qn = IF a.o.ctor = "qn" THEN [b \in 1..NB(a) |-> QnOf(a.o.qns, a.blocks[b][1], a.pos)] ELSE <<>>
DiagOk == LET o == [ctor |-> ev.ctor, h |-> OpC(ev.h), hyb |-> OpC(ev.hyb), nmin |-> ev.nmin, nmax |-> ev.nmax, qns |-> [i \in 1..Len(ev.qns) |-> OpC(ev.qns[i])]] IN
  /\ Diagonalise(o, hdr.n, hdr.pos, ev.ok, IF ev.ok THEN Listing(ev.blocks) ELSE <<>>)
  /\ ev.ok => ev.hok /\ ShownOk(at') 
Energies == LET e == Concat(at.es) IN [i \in 1..Len(e) |-> e[i] \div 1000000]
RoundE(e) == (e + 500000) \div 1000000
Mx(s) == LET S0 == {s[i] : i \in 1..Len(s)} IN CHOOSE x \in S0 : \A y \in S0 : y <= x
\* block-diagonal matrices as linear maps
BlockMap(m) == TLCEval([f \in at.kept |-> LET b == BlockOf(at, f) j == CHOOSE j \in 1..Len(at.blocks[b]) : at.blocks[b][j] = f IN
                           Clean([g \in Range(at.blocks[b]) |-> LET i == CHOOSE i \in 1..Len(at.blocks[b]) : at.blocks[b][i] = g IN m[b][i][j]])])
DiagonalH == \A m \in DOMAIN at.h : \A i \in 1..Len(m) : \E j \in 1..Len(m) : m[j] = -m[i]
ScaleMap(z, M) == [f \in DOMAIN M |-> Times(z, M[f])]
SumSeq(s) == FoldSeq(LAMBDA x, acc : CAdd(x, acc), Zero, s)
RECURSIVE Pow(_, _)
Pow(x, p) == IF p = 0 THEN 1 ELSE x * Pow(x, p - 1)
Poles(p, L) == SumSeq([i \in 1..Len(L) |-> CScale(Pow(L[i][1], p), L[i][2])])
ThermalOk ==
  LET e == Concat(ev.es) E == [i \in 1..Len(e) |-> RoundE(e[i])] emax == Mx(E) k == ev.k D == ev.D
      X == TLCEval([j \in 0..k |-> BlockMap(ev.X[j + 1])])
      ex == {S(ev.ex[i]) : i \in 1..Len(ev.ex)} \cap at.kept
      K == at.kept \ ex IN
  /\ \A i \in 1..Len(e) : e[i] - 1000000 * E[i] \in -2..2
  /\ ev.Z = SumI([i \in 1..Len(E) |-> 2 ^ (k * (emax - E[i]))])
  /\ ev.diag /\ ev.rho = ev.X[k + 1] /\ ev.same /\ ev.mesh /\ ev.nex = Cardinality(ex)
  /\ X[0] = LinMap(at.kept, LAMBDA f : Single(f, <<D, 0>>))
  /\ \A j \in 0..k : TraceMap(at, X[j]) = <<D * SumI([i \in 1..Len(E) |-> 2 ^ (j * (emax - E[i]))]), 0>> /\ \A f \in at.kept : Commutator(at, X[j], at.ht)[f] = Empty
  /\ k = 2 => Then(at, X[1], X[1]) = ScaleMap(<<D, 0>>, X[2])
  /\ \A i \in 1..Len(ev.L) : LET x == ev.L[i][1] y == ev.L[i][2] IN \A p \in 0..3 : Poles(p, ev.L[i][3]) = Moment(at, K, X[k], x, y, p)
  /\ \A i \in 1..Len(ev.T) : LET x == ev.T[i][1] y == ev.T[i][2] IN
       /\ Len(ev.T[i][3]) = k + 1 /\ ev.G[i][1] = x /\ ev.G[i][2] = y
       /\ \A j \in 0..k : ev.T[i][3][j + 1] = CNeg(Correlator(at, K, X[k - j], X[j], x, y)) /\ ev.G[i][3][j + 1] = ev.T[i][3][j + 1]
\* sum of residues / (z - pole): all in quarters, residues in eighths
PoleSum(i, j, re, im) == FoldSeq(LAMBDA t, acc :
   IF t[1] # i \/ t[2] # j THEN acc
   ELSE LET A == re - 2 * t[3] B == im d == 2 * (A * A + B * B) IN <<RAdd(acc[1], R(t[4] * A + t[5] * B, d)), RAdd(acc[2], R(t[5] * A - t[4] * B, d))>>, <<RZero, RZero>>, ev.t)
PolesOk == LET N == ev.n IN
  LET first == IF ev.via = "iw" /\ ~ev.pos THEN -ev.nm ELSE 0 IN
  LET count == IF ev.via = "iw" /\ ~ev.pos THEN 2 * ev.nm ELSE ev.nm IN
  /\ Len(ev.r) = count * N * N
  /\ \A w \in 0..(count - 1), i \in 0..(N - 1), j \in 0..(N - 1) :
       ev.r[(w * N + i) * N + j + 1] = IF ev.via = "iw" THEN PoleSum(i, j, 0, 4 * (2 * (first + w) + 1)) ELSE PoleSum(i, j, ev.w0 + w * ev.dw, ev.eta)
Same == UNCHANGED <<hdr, at>>
Ok ==
  \/ Is("Reset") /\ hdr' = ev /\ at' = Nothing
  \/ Is("Diag") /\ UNCHANGED hdr /\ DiagOk
  \/ Is("H5") /\ Same /\ ev.eq /\ ShownOk(at)
  \/ Is("Mono") /\ Same /\ Shows(at, MonoCols(at, ev.m, ev.B + 1), ev.to, ev.r)
  \/ Is("OpMat") /\ Same /\ LET F == OpC(ev.t) IN ev.ok = OpMatOk(at, F) /\ (ev.ok => ev.sz /\ OpMatShows(at, F, ev.r))
  \/ Is("Act") /\ Same /\ Psi(ev.v) = Keep(Psi(ev.psi), at.kept) /\ Psi(ev.r) = ActRestricted(at, OpC(ev.t), Psi(ev.psi)) /\ ev.size
  \/ Is("Rho") /\ Same /\ IF ev.bad # 0 THEN ~ev.ok ELSE ev.ok /\ ev.r = TraceRho(at, {<<S(ev.R[i][1]), S(ev.R[i][2]), <<ev.R[i][3], ev.R[i][4]>>>> : i \in 1..Len(ev.R)}, OpC(ev.t))
  \/ Is("Qn") /\ Same /\ LET F == OpC(ev.t) C == Commutes(F, at.h) IN
       /\ ev.ok => C /\ ev.tr = [b \in 1..NB(at) |-> BlockTrace(at, F, b)] /\ (ev.checked => KeepsBlocks(at, F) /\ \A b \in 1..NB(at) : ev.r[b] = Matrix(at, OnBlock(at, F, b), b))
       /\ C /\ ~ev.checked => ev.ok
       /\ C /\ ev.checked /\ KeepsBlocks(at, F) /\ (\A b \in 1..NB(at) : \A i \in 1..(Len(ev.es[b]) - 1) : ev.es[b][i + 1] > ev.es[b][i] + 1000) => ev.ok
  \/ Is("Thermal") /\ Same /\ ev.bad = 0 /\ ThermalOk
  \/ Is("Poles") /\ Same /\ PolesOk
TInit == l = 1 /\ at = Nothing /\ hdr = <<>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == TInit /\ [][TNext]_<<l, at, hdr>>
TraceAccepted == LET k == TLCGet("stats").diameter IN IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", k>>, FALSE)
==============================================================================
