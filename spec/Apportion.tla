------------------------------ MODULE Apportion ----------------------------
(* Integerisation of a vector of non-negative fractions w[i]/den to a given  *)
(* population: everyone gets the integral part of the rescaled value, the    *)
(* remaining units go one by one to the largest remainder.                   *)
EXTENDS Nd, Big

VARIABLES Q,       \* [w: weights, s: their sum (> 0), pop]
          f, r,    \* units given, and remainders in units of 1/s (may become negative)
          left     \* units still to be given
appVars == <<Q, f, r, left>>

AppInit == /\ f = [i \in DOMAIN Q.w |-> (Q.w[i] * Q.pop) \div Q.s]
           /\ r = [i \in DOMAIN Q.w |-> (Q.w[i] * Q.pop) % Q.s]
           /\ left = Q.pop - SumSeq(f)
Give(i) == /\ left > 0
           /\ \A j \in DOMAIN r : r[j] <= r[i]
           /\ f' = [f EXCEPT ![i] = @ + 1]
           /\ r' = [r EXCEPT ![i] = @ - Q.s]
           /\ left' = left - 1
           /\ UNCHANGED Q
AppNext == \E i \in DOMAIN f : Give(i)

\* squared distance (units 1/s^2) of a vector from the rescaled values
Cost(x) == SumSeq([i \in DOMAIN Q.w |-> (x[i] * Q.s - Q.w[i] * Q.pop) * (x[i] * Q.s - Q.w[i] * Q.pop)])
Bookkeeping == /\ \A i \in DOMAIN f : f[i] >= 0 /\ f[i] * Q.s + r[i] = Q.w[i] * Q.pop
               /\ SumSeq(f) + left = Q.pop
               /\ left >= 0
\* exchange condition: no unit moved from one entry to another reduces the cost
Exchange(x) == \A i, j \in DOMAIN x : (i # j /\ x[i] > 0) =>
                  (x[i] * Q.s - Q.w[i] * Q.pop) - (x[j] * Q.s - Q.w[j] * Q.pop) <= Q.s

(***************************************************************************)
(* The same conditions on a recorded result, in exact arithmetic.  w, s:    *)
(* magnitudes in any common unit; x: the integers returned; pop: required.  *)
(***************************************************************************)
\* x[i]*s - w[i]*pop as a sign and magnitude
Dev(w, s, pop, x) ==
  [i \in DOMAIN w |-> LET a == Mul(s, FromNat(x[i]))
                          b == Mul(w[i], FromNat(pop))
                      IN [neg |-> Cmp(a, b) < 0, m |-> AbsDiff(a, b)]]
\* signed comparison a <= b, sums
SLe(a, b) == IF a.neg /\ ~b.neg THEN TRUE
             ELSE IF ~a.neg /\ b.neg THEN a.m = <<>> /\ b.m = <<>>
             ELSE IF a.neg THEN Le(b.m, a.m) ELSE Le(a.m, b.m)
SMax(s) == FoldLeft(LAMBDA acc, y : IF SLe(acc, y) THEN y ELSE acc, s[1], s)
SMin(s) == FoldLeft(LAMBDA acc, y : IF SLe(y, acc) THEN y ELSE acc, s[1], s)
\* a - b <= c, c a magnitude
DiffAtMost(a, b, c) ==
  CASE a.neg = b.neg /\ ~a.neg -> Le(a.m, Add(b.m, c))
    [] a.neg = b.neg /\ a.neg  -> Le(b.m, Add(a.m, c))
    [] a.neg /\ ~b.neg         -> TRUE
    [] OTHER                   -> Le(Add(a.m, b.m), c)

\* eps: permitted error of the comparison, in the unit of s
Closest(dev, s, x, eps) ==
  LET up == SelectSeq([i \in DOMAIN x |-> i], LAMBDA i : x[i] > 0)
  IN up = <<>> \/ DiffAtMost(SMax([k \in DOMAIN up |-> dev[up[k]]]), SMin(dev), Add(s, eps))
WithinOne(dev, s, eps) == \A i \in DOMAIN dev : Le(dev[i].m, Add(s, eps))
SqSum(dev) == FoldLeft(LAMBDA acc, y : Add(acc, Mul(y.m, y.m)), <<>>, dev)
\* is rmse (fixed point) the root mean square of dev/s, to within (tol) 10^-12 units?
RmseOK(rmse, dev, s, tol) ==
  /\ Finite(rmse) /\ NonNeg(rmse)
  /\ LET n == FromNat(Len(dev))
         sq == Shift(SqSum(dev), 2 * FracLimbs)           \* n * s^2 * rmse^2, units 10^-24
         hi == Mul(Add(rmse.m, tol), s)
         lo == IF Le(rmse.m, tol) THEN <<>> ELSE Mul(Minus(rmse.m, tol), s)
     IN Le(sq, Mul(n, Mul(hi, hi))) /\ Le(Mul(n, Mul(lo, lo)), sq)
============================================================================
