--------------------------- MODULE TraceManyBody ---------------------------
(* Trace specification of the algebra of many-body operators: registers 0..4 holding operators. *)
EXTENDS Fermions, Json, IOUtils
VARIABLES l, reg, hdr
Trace == ndJsonDeserialize(IOEnv.TRACE)
Is(e) == Trace[l].e = e
ev == Trace[l]
Regs == 0..4
RealScalars == hdr.scalar = "double"
\* the listed terms are the operator: canonical monomials, each once, no cancelled one
Listed(t) == [m \in {t[i][1] : i \in 1..Len(t)} |-> LET i == CHOOSE i \in 1..Len(t) : t[i][1] = m IN <<t[i][2], t[i][3]>>]
Good(t) == /\ \A i \in 1..Len(t) : Canonical(t[i][1]) /\ <<t[i][2], t[i][3]>> # Zero /\ (t[i][4] => t[i][3] = 0)
           /\ Cardinality({t[i][1] : i \in 1..Len(t)}) = Len(t)
Is_(t, F) == Good(t) /\ Listed(t) = F
\* runtime scalars stay real when everything they come from is real: rl[d] says that register d was computed from real numbers only
VARIABLE rl
Reals(t) == \A i \in 1..Len(t) : t[i][4]
Set(F, real) == /\ Is_(ev.r, F)
                /\ (real /\ hdr.scalar = "roc") => Reals(ev.r)
                /\ reg' = [reg EXCEPT ![ev.d] = F] /\ rl' = [rl EXCEPT ![ev.d] = real] /\ UNCHANGED hdr
Still == UNCHANGED <<reg, rl, hdr>>
zz == <<ev.re, ev.im>>
A == reg[ev.a]
B == reg[ev.b]
Mode(x) == IF x > 0 THEN x ELSE -x
OpText(x) == IF x > 0 THEN "c_dag" \o hdr.names[x] ELSE "c" \o hdr.names[-x]
MonoText(m) == FoldSeq(LAMBDA x, acc : acc \o "*" \o OpText(x), "", m)
CoefText(t) == IF hdr.scalar = "complex" THEN "(" \o ToString(t[2]) \o "," \o ToString(t[3]) \o ")"
               ELSE IF hdr.scalar = "double" \/ t[4] THEN ToString(t[2])
               ELSE "(" \o ToString(t[2]) \o (IF t[3] >= 0 THEN "+" ELSE "") \o ToString(t[3]) \o "j)"
TermText(t) == CoefText(t) \o MonoText(t[1])
Text(ts) == IF ts = <<>> THEN "0" ELSE FoldSeq(LAMBDA t, acc : IF acc = "" THEN TermText(t) ELSE acc \o " + " \o TermText(t), "", ts)
\* zeros of either sign print differently; compare the text only without zero imaginary parts
Printable(ts) == \A i \in 1..Len(ts) : ts[i][2] # 0 /\ (hdr.scalar = "double" \/ ts[i][4] \/ ts[i][3] # 0)
Len4(F) == \A m \in DOMAIN F : Len(m) <= 4
Ok ==
  \/ Is("Reset") /\ hdr' = [scalar |-> ev.scalar, names |-> ev.names] /\ reg' = [d \in Regs |-> Empty] /\ rl' = [d \in Regs |-> TRUE]
  \/ Is("C") /\ Set(Single(<<-ev.k>>, One), TRUE)
  \/ Is("Cdag") /\ Set(Single(<<ev.k>>, One), TRUE)
  \/ Is("N") /\ Set(Single(<<ev.k, -ev.k>>, One), TRUE)
  \/ Is("Scalar") /\ Set(Unit(zz), ev.real)
  \/ Is("Mono") /\ Set(Single(ev.m, zz), ev.real)
  \/ Is("Add") /\ Set(Plus(A, B), rl[ev.a] /\ rl[ev.b])
  \/ Is("Sub") /\ Set(Minus(A, B), rl[ev.a] /\ rl[ev.b])
  \/ Is("Mul") /\ Set(Prod(A, B), rl[ev.a] /\ rl[ev.b])
  \/ Is("AddS") /\ Set(Plus(A, Unit(zz)), rl[ev.a] /\ ev.real)
  \/ Is("SubS") /\ Set(Minus(A, Unit(zz)), rl[ev.a] /\ ev.real)
  \/ Is("RSub") /\ Set(Minus(Unit(zz), A), rl[ev.a] /\ ev.real)
  \/ Is("MulS") /\ Set(Times(zz, A), rl[ev.a] /\ ev.real)
  \* ev.r is the quotient times 4: quotient * z = A
  \/ Is("DivS") /\ Still /\ Good(ev.r) /\ Times(zz, Listed(ev.r)) = Times(<<4, 0>>, A)
  \/ Is("Neg") /\ Set(Times(<<-1, 0>>, A), rl[ev.a])
  \/ Is("Dag") /\ Set(Dagger(A), rl[ev.a])
  \/ Is("Real") /\ Set(RealV(A), TRUE)
  \/ Is("Imag") /\ Set(ImagV(A), TRUE)
  \/ Is("Copy") /\ Set(A, rl[ev.a] /\ ev.real)
  \/ Is("Conv") /\ Still /\ Is_(ev.r, A)
  \/ Is("ToReal") /\ Still /\ ev.thrown = ~Reals(ev.src) /\ (~ev.thrown => Is_(ev.r, A))
  \/ Is("Transform") /\ Set(Clean([m \in DOMAIN A |-> CScale(Len(m) - ev.k, A[m])]), rl[ev.a])
  \/ Is("Fops") /\ Still /\ {ev.v[i] : i \in 1..Len(ev.v)} = Modes(A) /\ Cardinality(Modes(A)) = Len(ev.v)
  \/ Is("Query") /\ Still /\ ev.eq = (A = B) /\ ev.ne = ~ev.eq /\ ev.zero = (A = Empty) /\ ev.azero = ev.zero /\ ev.herm = IsHermitian(A) /\ ev.close = ev.eq
  \/ Is("Print") /\ Still /\ Is_(ev.r, A) /\ ev.n = Cardinality(DOMAIN A) /\ (Printable(ev.r) => ev.s = Text(ev.r))
                 /\ ev.pairs = [i \in 1..Len(ev.r) |-> Append(ev.r[i][1], ev.r[i][2])]
  \/ Is("H5") /\ ev.thrown = ~Len4(A) /\ IF ev.thrown THEN Still ELSE Set(A, rl[ev.a])
TInit == l = 1 /\ reg = [d \in Regs |-> Empty] /\ rl = [d \in Regs |-> TRUE] /\ hdr = [scalar |-> "", names |-> <<>>]
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == TInit /\ [][TNext]_<<l, reg, rl, hdr>>
TraceAccepted == LET k == TLCGet("stats").diameter IN IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", k>>, FALSE)
============================================================================
