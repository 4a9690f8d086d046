-------------------------------- MODULE Stats ------------------------------
(* Pearson's statistic of a table against its expectation, and the upper    *)
(* tail of the chi-squared distribution, in fixed point: units of 10^-24.   *)
(*                                                                          *)
(* With k degrees of freedom, Q_k(x) = exp(-x/2) * (sum of T_i, i < k,      *)
(* i = k mod 2), plus 2(1 - Phi(sqrt x)) if k is odd; equivalently          *)
(* 1 - Q_k(x) = exp(-x/2) * (sum of T_i, i >= k), where T_0 = 1,            *)
(* T_1 = sqrt(2x/pi) and T_i = T_(i-2) * x / i.  The machine below adds     *)
(* these terms one at a time, and those of exp(x/2) (T_0, T_2, ..).         *)
EXTENDS Nd, Big

SD == 6                                   \* limbs after the point
SOne == Shift(<<1>>, SD)
SInt(n) == Shift(FromNat(n), SD)
SMul(a, b) == Drop(Mul(a, b), SD)
SDiv(a, b) == Div(Shift(a, SD), b)
Half(a) == DivSmall(a, 2)[1]

\* sum of (count - expected)^2 / expected; counts are naturals, es in 10^-24; <<impossible cell occupied, sum>>
ChiSq(counts, es) ==
  FoldLeftDomain(LAMBDA acc, c :
      IF es[c] = <<>> THEN (IF counts[c] = 0 THEN acc ELSE <<TRUE, acc[2]>>)
      ELSE LET df == AbsDiff(SInt(counts[c]), es[c])
           IN IF df = <<>> THEN acc ELSE <<acc[1], Add(acc[2], Div(Mul(df, df), es[c]))>>,
    <<FALSE, <<>>>>, counts)
Dof(d) == ProdSeq([i \in DOMAIN d |-> d[i] - 1])

\* floor of the square root, by Newton's method from above
RECURSIVE NewtonRoot(_, _)
NewtonRoot(n, y) == LET z == Half(Add(y, Div(n, y))) IN IF Cmp(z, y) >= 0 THEN y ELSE NewtonRoot(n, z)
Root(n) == IF n = <<>> THEN <<>> ELSE NewtonRoot(n, Shift(<<1>>, (Len(n) + 2) \div 2))
Pi == <<2643, 2384, 7932, 5358, 9265, 1415, 3>>         \* 3.141592653589793238462643, 10^-24 units
SRoot(a) == Root(Shift(a, SD))

VARIABLES x, dof,         \* the point, the degrees of freedom
          i, t,           \* index and value of the current term
          upper,          \* sum of the terms so far with index >= dof
          e, te, total    \* the same for exp(x/2): index, term, sum
statVars == <<x, dof, i, t, upper, e, te, total>>
Parity == dof % 2
StatInit == i = -1 /\ t = <<>> /\ upper = <<>> /\ e = 0 /\ te = SOne /\ total = SOne
FirstTerm == /\ i = -1
             /\ i' = Parity
             /\ t' = IF Parity = 0 THEN SOne ELSE SRoot(SDiv(Add(x, x), Pi))
             /\ upper' = IF Parity >= dof THEN t' ELSE <<>>
             /\ UNCHANGED <<x, dof, e, te, total>>
TermsLeft == i >= 0 /\ (t # <<>> \/ i < 2 \/ te # <<>>)
Times(a, k) == DivSmall(SMul(a, x), k)[1]
AddTerm ==
  /\ TermsLeft
  /\ i' = i + 2 /\ t' = Times(t, i + 2)
  /\ upper' = IF i + 2 >= dof THEN Add(upper, t') ELSE upper
  /\ e' = e + 2 /\ te' = Times(te, e + 2)
  /\ total' = Add(total, te')
  /\ UNCHANGED <<x, dof>>
Summed == i >= 0 /\ ~TermsLeft
\* probability of a value below x, 10^-24 units; and of one above
Lower == SDiv(upper, total)
Upper == LET l == Lower IN IF Cmp(l, SOne) >= 0 THEN <<>> ELSE Minus(SOne, l)
============================================================================
