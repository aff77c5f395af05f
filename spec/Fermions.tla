------------------------------- MODULE Fermions -------------------------------
(* Second quantised operators and the states they act on.

   Modes are numbered 1..n in the order of their index tuples.  +k stands for the creation operator of mode k and -k for
   its annihilation operator.  A monomial is a sequence of such numbers; it is canonical when the creation operators come
   first, ascending, followed by the annihilation operators, descending.  An operator is a function from canonical
   monomials to Gaussian integers <<re, im>>, without zeros.  A Fock state is the set of the positions of the occupied
   orbitals, and a state is a function from Fock states to Gaussian integers, without zeros. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC

\* ------------------------------------------------------------------ Gaussian integers
Zero == <<0, 0>>
One == <<1, 0>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CNeg(a) == <<-a[1], -a[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CConj(a) == <<a[1], -a[2]>>
CScale(k, a) == <<k * a[1], k * a[2]>>
MinusOne(p) == IF p % 2 = 0 THEN 1 ELSE -1

\* ------------------------------------------------------------------ vectors: functions with finite domain and no zeros
Empty == [x \in {} |-> Zero]
At(F, x) == IF x \in DOMAIN F THEN F[x] ELSE Zero
Clean(F) == [x \in {y \in DOMAIN F : F[y] # Zero} |-> F[x]]
Plus(F, G) == Clean([x \in DOMAIN F \cup DOMAIN G |-> CAdd(At(F, x), At(G, x))])
Times(z, F) == Clean([x \in DOMAIN F |-> CMul(z, F[x])])
Minus(F, G) == Plus(F, Times(<<-1, 0>>, G))
Single(x, z) == Clean([y \in {x} |-> z])
Sum(S, f(_)) == FoldSet(LAMBDA x, acc : Plus(acc, f(x)), Empty, S)
RealV(F) == Clean([x \in DOMAIN F |-> <<F[x][1], 0>>])
ImagV(F) == Clean([x \in DOMAIN F |-> <<F[x][2], 0>>])

\* ------------------------------------------------------------------ normal ordering
Before(x, y) == IF x > 0 THEN y < 0 \/ x < y ELSE y < 0 /\ x < y
Canonical(m) == \A i \in 1..(Len(m) - 1) : Before(m[i], m[i + 1])
Has(m, x) == \E i \in 1..Len(m) : m[i] = x
Place(m, x) == Cardinality({i \in 1..Len(m) : Before(m[i], x)})
Inserted(m, p, x) == SubSeq(m, 1, p) \o <<x>> \o SubSeq(m, p + 1, Len(m))
Drop(m, i) == SubSeq(m, 1, i - 1) \o SubSeq(m, i + 1, Len(m))
\* x times the canonical monomial m, as an operator
Index(m, x) == CHOOSE i \in 1..Len(m) : m[i] = x
\* (both parts are injective in m, which gives their inverses)
PutAll(x, F) == [k \in {Inserted(m, Place(m, x), x) : m \in {y \in DOMAIN F : ~Has(y, x)}} |->
                   LET i == Index(k, x) IN CScale(MinusOne(i - 1), F[Drop(k, i)])]
ContractAll(x, F) == IF x > 0 THEN Empty
                     ELSE [k \in {Drop(m, Index(m, -x)) : m \in {y \in DOMAIN F : Has(y, -x)}} |->
                             LET p == Place(k, -x) IN CScale(MinusOne(p), F[Inserted(k, p, -x)])]
LeftMul(x, F) == Plus(PutAll(x, F), ContractAll(x, F))
RECURSIVE MonoTimes(_, _)
MonoTimes(w, F) == IF w = <<>> THEN F ELSE MonoTimes(Front(w), LeftMul(Last(w), F))
Unit(z) == Single(<<>>, z)
NormalOrder(w) == MonoTimes(w, Unit(One))
Prod(F, G) == Sum(DOMAIN F, LAMBDA m : Times(F[m], MonoTimes(m, G)))
RevFlip(m) == [i \in 1..Len(m) |-> -m[Len(m) + 1 - i]]
Dagger(F) == [m \in {RevFlip(x) : x \in DOMAIN F} |-> CConj(F[RevFlip(m)])]
IsHermitian(F) == Dagger(F) = F
Modes(F) == UNION {{IF m[i] > 0 THEN m[i] ELSE -m[i] : i \in 1..Len(m)} : m \in DOMAIN F}

\* ------------------------------------------------------------------ action on Fock states; pos[k]: position of the orbital of mode k
Nil == [f |-> {}, s |-> 0]
Sign(f, p) == MinusOne(Cardinality({q \in f : q < p}))
ActOne(x, st, pos) ==
  IF st.s = 0 THEN Nil
  ELSE LET p == pos[IF x > 0 THEN x ELSE -x] IN
       IF x > 0 THEN IF p \in st.f THEN Nil ELSE [f |-> st.f \cup {p}, s |-> st.s * Sign(st.f, p)]
                ELSE IF p \in st.f THEN [f |-> st.f \ {p}, s |-> st.s * Sign(st.f, p)] ELSE Nil
RECURSIVE ActSeq(_, _, _)
ActSeq(w, st, pos) == IF w = <<>> THEN st ELSE ActSeq(Front(w), ActOne(Last(w), st, pos), pos)
\* a monomial maps the Fock states it does not annihilate one to one, and its conjugate maps them back with the same sign
ActMono(m, psi, pos) == LET img(f) == ActSeq(m, [f |-> f, s |-> 1], pos) IN
  [g \in {img(f).f : f \in {h \in DOMAIN psi : img(h).s # 0}} |-> LET b == ActSeq(RevFlip(m), [f |-> g, s |-> 1], pos) IN CScale(b.s, psi[b.f])]
Act(F, psi, pos) == Sum(DOMAIN F, LAMBDA m : Times(F[m], ActMono(m, psi, pos)))
Dot(a, b) == FoldSet(LAMBDA f, acc : CAdd(acc, CMul(CConj(a[f]), b[f])), Zero, DOMAIN a \cap DOMAIN b)
===============================================================================
