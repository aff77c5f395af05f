------------------------------ MODULE Accumulator ------------------------------
(* Accumulators of samples: acc[id] = [s, lmax, nmax, cap, blk]; s is the sequence of all samples (each a sequence of components <<re, im>>),
   blk the lengths of the consecutive blocks kept in the linear bins, cap their capacity.
   Levels of the logarithmic bins are functions of the samples alone. *)
EXTENDS Rational, SequencesExt, FiniteSets, TLC
VARIABLE acc
Pow2(l) == 2 ^ l
Blocks(nmax) == IF nmax = 0 THEN <<>> ELSE <<0>>
New(id, lmax, nmax, cap) ==
  acc' = [i \in DOMAIN acc \cup {id} |-> IF i = id THEN [s |-> <<>>, lmax |-> lmax, nmax |-> nmax, cap |-> cap, blk |-> Blocks(nmax)] ELSE acc[i]]
\* f consecutive blocks become one
Merge(b, f) == [i \in 1..((Len(b) + f - 1) \div f) |-> SumI(SubSeq(b, (i - 1) * f + 1, IF i * f < Len(b) THEN i * f ELSE Len(b)))]
Squeezed(o, f) == IF o.nmax = 0 \/ f < 2 THEN o ELSE [o EXCEPT !.blk = Merge(@, f), !.cap = @ * f]
Pushed(o, x) ==
  LET w == [o EXCEPT !.s = Append(@, x)] IN
  IF o.nmax = 0 THEN w ELSE
  LET z == IF o.nmax > 1 /\ Len(o.blk) = o.nmax /\ Last(o.blk) = o.cap THEN Squeezed(w, 2) ELSE w
  IN IF Last(z.blk) = z.cap /\ z.nmax # 1 THEN [z EXCEPT !.blk = Append(@, 1)] ELSE [z EXCEPT !.blk[Len(z.blk)] = @ + 1]
Add(id, x) == acc' = [acc EXCEPT ![id] = Pushed(@, x)]
Compress(id, f) == acc' = [acc EXCEPT ![id] = Squeezed(@, f)]
Copy(id, j) == acc' = [i \in DOMAIN acc \cup {id} |-> IF i = id THEN acc[j] ELSE acc[i]]
Move(id, j) == id # j /\ acc' = [i \in (DOMAIN acc \cup {id}) \ {j} |-> IF i = id THEN acc[j] ELSE acc[i]]

\* ---- what can be seen
Count(o) == Len(o.s)
Start(o, i) == SumTo(o.blk, i - 1)
SumOf(s, a, n, c, k) == LET f == [i \in 1..n |-> s[a + i][c][k]] IN SumI(f)
Bin(o, i, c, k) == IF o.blk[i] = 0 THEN RZero ELSE R(SumOf(o.s, Start(o, i), o.blk[i], c, k), o.blk[i])
Levels(n, lmax) == IF lmax = 0 THEN 0 ELSE LET S == {l \in 0..20 : l < (IF lmax < 0 THEN 21 ELSE lmax) /\ (l = 0 \/ Pow2(l) <= n)} IN Cardinality(S)
NBlocks(n, l) == n \div Pow2(l)
\* the sums of the blocks of 2^l consecutive samples
BlockSums(s, l, c, k) == [i \in 1..NBlocks(Len(s), l) |-> SumOf(s, (i - 1) * Pow2(l), Pow2(l), c, k)]
\* squared standard error of a list of block sums (real and imaginary parts), of blocks of the given length
SqErr(re, im, len) ==
  LET n == Len(re) IN
  IF n <= 1 THEN RZero ELSE
  LET a == SumI(re) b == SumI(im)
      q == SumI([i \in 1..n |-> (n * re[i] - a) * (n * re[i] - a) + (n * im[i] - b) * (n * im[i] - b)])
  IN RDivI(RDivI(R(q, n * len), n * len), n * (n - 1))
LogErr(o, l, c) == SqErr(BlockSums(o.s, l, c, 1), BlockSums(o.s, l, c, 2), Pow2(l))

\* ---- properties
Canonical(o) == o.nmax \in {0, 1} \/ (/\ \A i \in 1..(Len(o.blk) - 1) : o.blk[i] = o.cap
                                      /\ Last(o.blk) <= o.cap /\ (Count(o) > 0 => Last(o.blk) > 0))
Inv == \A i \in DOMAIN acc : LET o == acc[i] IN
  /\ o.nmax # 0 => SumI(o.blk) = Count(o)
  /\ o.nmax > 0 => Len(o.blk) <= o.nmax
  /\ Canonical(o)
  /\ \A l \in 0..(Levels(Count(o), o.lmax) - 1) : NBlocks(Count(o), l) * Pow2(l) + (Count(o) % Pow2(l)) = Count(o)
===============================================================================
