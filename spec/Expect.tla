------------------------------- MODULE Expect ------------------------------
(* The reference distribution of qis: cell by cell proportional to the      *)
(* product of the marginal values covering it, scaled to the population.    *)
(* Kept as exact fractions weight[c] * pop / total.                         *)
EXTENDS Problem, Big

BigProd(s) == FoldLeft(LAMBDA a, b : MulNat(a, b), <<1>>, s)
\* weight of every cell of a prepared problem
Weights(q) == [c \in 1..q.size |-> BigProd([j \in DOMAIN q.m |-> q.m[j][q.proj[j][c]]])]

\* does the recorded double x equal w*pop/total to within 10^-9 (relative) plus 2*10^-12?
AgreesWith(x, w, pop, total) ==
  /\ Finite(x) /\ NonNeg(x)
  /\ IF total = <<>> THEN x.m = <<>>
     ELSE LET want == Shift(MulNat(w, pop), FracLimbs)
              got  == Mul(x.m, total)
          IN Le(Mul(AbsDiff(want, got), FromNat(1000000000)),
                Add(want, Mul(total, FromNat(2000000000))))
ExpectationOK(q, e) ==
  LET w == Weights(q)
      t == SumBig(w)
  IN \A c \in 1..q.size : AgreesWith(e[c], w[c], q.pop, t)

\* sums of a recorded array of doubles over the dimensions absent from marginal j
FxMarginal(q, e, j) ==
  FoldLeftDomain(LAMBDA acc, c : [acc EXCEPT ![q.proj[j][c]] = Add(@, e[c].m)], [i \in DOMAIN q.m[j] |-> <<>>], e)
MarginalsReproduced(q, e) ==
  \A j \in DOMAIN q.m :
    LET s == FxMarginal(q, e, j)
    IN \A i \in DOMAIN s : Le(AbsDiff(s[i], FxInt(q.m[j][i])), Add(FromNat(q.size + 10), Div(FxInt(q.m[j][i]), Pow10(9))))
============================================================================
