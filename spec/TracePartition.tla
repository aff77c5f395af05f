---------------------------- MODULE TracePartition ----------------------------
EXTENDS Fermions, Json, IOUtils
Pt == INSTANCE Partition
VARIABLES l, comp, hdr
Trace == ndJsonDeserialize(IOEnv.TRACE)
Is(e) == Trace[l].e = e
ev == Trace[l]
Op(t) == [m \in {t[i][1] : i \in 1..Len(t)} |-> LET i == CHOOSE i \in 1..Len(t) : t[i][1] = m IN <<t[i][2], t[i][3]>>]
Dim == 2 ^ hdr.n
Bits(x) == {p \in 0..(hdr.n - 1) : (x \div 2 ^ p) % 2 = 1}
RECURSIVE Num(_)
Num(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN 2 ^ p + Num(S \ {p})
\* matrix elements <<i, f, re, im>>, in the order of (i, f)
Elements(t) == UNION {LET psi == Act(Op(t), Single(Bits(i), One), hdr.pos) IN {<<i, Num(f), psi[f][1], psi[f][2]>> : f \in DOMAIN psi} : i \in 0..(Dim - 1)}
Edges(M) == {<<x[1], x[2]>> : x \in M}
Listed(s) == {s[i] : i \in 1..Len(s)}
Shown(c) == ev.ix = [i \in 1..Dim |-> Pt!IndexOf(c, i - 1)] /\ ev.n = Cardinality(Pt!Reps(c))
Ok ==
  \/ Is("Reset") /\ hdr' = ev /\ comp' = Pt!Singletons(2 ^ ev.n)
  \/ Is("Part") /\ UNCHANGED hdr
     /\ LET M == Elements(ev.op) IN
        /\ comp' = Pt!LinkAll(Pt!Singletons(Dim), Edges(M) \cup Edges(Elements(ev.hyb)))
        /\ Shown(comp') /\ (IF ev.store THEN Listed(ev.el) = M /\ Len(ev.el) = Cardinality(M) ELSE ev.el = <<>>)
  \/ Is("Still") /\ UNCHANGED <<hdr, comp>> /\ Shown(comp)
  \/ Is("Merge") /\ UNCHANGED hdr
     /\ LET M == Elements(ev.op) C == Elements(ev.conj) IN
        /\ comp' = Pt!Coarsen(comp, {Edges(M), Edges(C)})
        /\ Shown(comp')
        /\ IF ev.store THEN Listed(ev.el) = M /\ Listed(ev.elc) = C ELSE ev.el = <<>> /\ ev.elc = <<>>
  \/ Is("Find") /\ UNCHANGED <<hdr, comp>>
     /\ LET L == Pt!Mappings(comp, Edges(Elements(ev.op))) IN Listed(ev.v) = IF ev.diag THEN {p \in L : p[1] = p[2]} ELSE L
TInit == l = 1 /\ comp = <<>> /\ hdr = <<>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == TInit /\ [][TNext]_<<l, comp, hdr>>
TraceAccepted == LET k == TLCGet("stats").diameter IN IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", k>>, FALSE)
===============================================================================
