----------------------------- MODULE TraceStates -----------------------------
(* Trace specification of states and of operators acting on them: registers 0..3 holding a state and the space it is in. *)
EXTENDS Fermions, Json, IOUtils
VARIABLES l, reg, hdr
Trace == ndJsonDeserialize(IOEnv.TRACE)
Is(e) == Trace[l].e = e
ev == Trace[l]
SetOf(b) == {b[i] : i \in 1..Len(b)}
Vec(r) == [f \in {SetOf(r[i][1]) : i \in 1..Len(r)} |-> LET i == CHOOSE i \in 1..Len(r) : SetOf(r[i][1]) = f IN <<r[i][2], r[i][3]>>]
Good(r) == Cardinality({SetOf(r[i][1]) : i \in 1..Len(r)}) = Len(r) /\ \A i \in 1..Len(r) : <<r[i][2], r[i][3]>> # Zero
Is_(r, F) == Good(r) /\ Vec(r) = F
Op(t) == [m \in {t[i][1] : i \in 1..Len(t)} |-> LET i == CHOOSE i \in 1..Len(t) : t[i][1] = m IN <<t[i][2], t[i][3]>>]
zz == <<ev.re, ev.im>>
A == reg[ev.a].v
B == reg[ev.b].v
Put(sp, F) == Is_(ev.r, F) /\ reg' = [reg EXCEPT ![ev.d] = [sp |-> sp, v |-> F]] /\ UNCHANGED hdr
Still == UNCHANGED <<reg, hdr>>
RECURSIVE Num(_)
Num(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN 2 ^ p + Num(S \ {p})
AmpText(t) == IF hdr.cplx THEN "(" \o ToString(t[2]) \o "," \o ToString(t[3]) \o ")" ELSE ToString(t[2])
StateText(o) == IF o = <<>> THEN "0" ELSE FoldSeq(LAMBDA t, acc : acc \o " +(" \o AmpText(t) \o ")|" \o ToString(Num(SetOf(t[1]))) \o ">", "", o)
Printable(o) == \A i \in 1..Len(o) : ~hdr.cplx \/ (o[i][2] # 0 /\ o[i][3] # 0)
OnSpace(F, S) == [f \in DOMAIN F \cap S |-> F[f]]
Ok ==
  \/ Is("Reset") /\ hdr' = ev /\ reg' = [d \in 0..3 |-> [sp |-> 0, v |-> Empty]]
  \/ Is("ZeroState") /\ Put(ev.sp, Empty)
  \/ Is("MkZero") /\ Put(reg[ev.a].sp, Empty) /\ ev.sp = reg[ev.a].sp
  \/ Is("Basis") /\ Put(ev.sp, Single(SetOf(ev.f), One)) /\ ev.size = ev.hsize
  \/ Is("SetAmp") /\ LET F == reg[ev.d].v f == SetOf(ev.f) IN Put(reg[ev.d].sp, Clean([g \in DOMAIN F \cup {f} |-> IF g = f THEN zz ELSE F[g]]))
  \/ Is("IncAmp") /\ Put(reg[ev.d].sp, Plus(reg[ev.d].v, Single(SetOf(ev.f), zz)))
  \/ Is("AddState") /\ Put(reg[ev.a].sp, Plus(A, B)) /\ ev.sp = reg[ev.a].sp
  \/ Is("SubState") /\ Put(reg[ev.a].sp, Minus(A, B)) /\ ev.sp = reg[ev.a].sp
  \/ Is("MulState") /\ Put(reg[ev.a].sp, Times(zz, A)) /\ ev.sp = reg[ev.a].sp
  \/ Is("DivState") /\ Still /\ Good(ev.r) /\ Times(zz, Vec(ev.r)) = Times(<<4, 0>>, A)
  \/ Is("Dot") /\ Still /\ ev.v = Dot(A, B)
  \/ Is("CopyState") /\ Put(reg[ev.a].sp, A) /\ ev.sp = reg[ev.a].sp
  \/ Is("Act") /\ LET F == Op(ev.op) once == Act(F, A, hdr.pos)
                      all == IF ev.isleft THEN Act(Op(ev.left), once, hdr.pos) ELSE once IN
       Put(reg[ev.a].sp, Times(<<ev.times, 0>>, all)) /\ ev.sp = reg[ev.a].sp /\ ev.e0 /\ (~ev.isleft => ev.empty = (F = Empty))
  \/ Is("ActMap") /\ LET R == Act(Op(ev.op), A, hdr.pos) t == ev.map[ev.src + 1] IN
       ev.src = reg[ev.a].sp /\ (IF t = -1 THEN R = Empty /\ Put(0, Empty) ELSE Put(t, R) /\ ev.sp = t)
  \/ Is("Project") /\ Still /\ \A s \in 1..Len(hdr.spaces) : \A k \in 1..2 : Is_(ev.r[s][k], OnSpace(A, {SetOf(hdr.spaces[s][i]) : i \in 1..Len(hdr.spaces[s])}))
  \/ Is("ProjectFull") /\ Still /\ Is_(ev.r[1], A) /\ Is_(ev.r[2], A)
  \/ Is("PrintState") /\ Still /\ Is_(ev.order, A) /\ ev.n = (IF hdr.map THEN Cardinality(DOMAIN A) ELSE ev.size)
                      /\ (ev.small /\ Printable(ev.order) => ev.s = StateText(ev.order))
TInit == l = 1 /\ reg = <<>> /\ hdr = <<>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TSpec == TInit /\ [][TNext]_<<l, reg, hdr>>
TraceAccepted == LET k == TLCGet("stats").diameter IN IF k - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", k>>, FALSE)
===============================================================================
