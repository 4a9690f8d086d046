-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size: little-endian sequences of base-10^4 limbs, *)
(* without leading zeros (zero is <<>>); and signed fixed-point numbers.    *)
EXTENDS Integers, Sequences, SequencesExt

B == 10000

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))

RECURSIVE FromNat(_)
FromNat(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o FromNat(n \div B)

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
Ix(n) == [i \in 1..n |-> i]

\* limbs ds (non-negative, each below 2^31 - 2*10^5) with carries propagated
Carry(ds) ==
  LET r == FoldLeft(LAMBDA acc, d : LET t == d + acc[2] IN <<Append(acc[1], t % B), t \div B>>, <<<<>>, 0>>, ds)
  IN Trim(r[1] \o FromNat(r[2]))

Add(a, b) == Carry([i \in 1..MaxLen(a, b) |-> Limb(a, i) + Limb(b, i)])

\* a - b, for a >= b
Minus(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i :
               LET t == Limb(a, i) - Limb(b, i) - acc[2]
               IN IF t < 0 THEN <<Append(acc[1], t + B), 1>> ELSE <<Append(acc[1], t), 0>>,
             <<<<>>, 0>>, Ix(Len(a)))
  IN Trim(r[1])

\* -1, 0, 1
Cmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE FoldLeft(LAMBDA acc, i : IF a[i] = b[i] THEN acc ELSE (IF a[i] < b[i] THEN -1 ELSE 1), 0, Ix(Len(a)))
Le(a, b) == Cmp(a, b) <= 0
Lt_(a, b) == Cmp(a, b) < 0

\* by a natural number below 200000
MulSmall(a, k) == IF k = 0 THEN <<>> ELSE Carry([i \in 1..Len(a) |-> a[i] * k])
Shift(a, s) == IF a = <<>> THEN a ELSE [i \in 1..s |-> 0] \o a
Mul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE FoldLeft(LAMBDA acc, i : IF b[i] = 0 THEN acc ELSE Add(acc, Shift(MulSmall(a, b[i]), i - 1)), <<>>, Ix(Len(b)))
MulNat(a, n) == IF n < B THEN MulSmall(a, n) ELSE Mul(a, FromNat(n))

\* <<quotient, remainder>> for 0 < k < 200000
DivSmall(a, k) ==
  LET r == FoldLeft(LAMBDA acc, i : LET t == acc[2] * B + a[Len(a) + 1 - i]
                                    IN <<<<t \div k>> \o acc[1], t % k>>, <<<<>>, 0>>, Ix(Len(a)))
  IN <<Trim(r[1]), r[2]>>

\* largest q in 0..B-1 with q*b <= a
RECURSIVE Digit(_, _, _, _)
Digit(a, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF Le(MulSmall(b, mid), a) THEN Digit(a, b, mid, hi) ELSE Digit(a, b, lo, mid - 1)
\* estimate from the leading limbs, then search only nearby
QDigit(a, b) ==
  IF Cmp(a, b) < 0 THEN 0
  ELSE LET n == Len(b)
           top == Limb(a, n + 1) * B + Limb(a, n)     \* leading part of a, aligned with the leading limb of b
           hi == LET h == top \div b[n] IN IF h > B - 1 THEN B - 1 ELSE h
           lo == top \div (b[n] + 1)
       IN IF n = 1 THEN top \div b[1]
          ELSE Digit(a, b, lo, hi)
\* floor(a / b), b > 0
Div(a, b) ==
  IF Cmp(a, b) < 0 THEN <<>>
  ELSE LET r == FoldLeft(LAMBDA acc, i :
                   LET cur == Trim(<<a[Len(a) + 1 - i]>> \o acc[2])
                       q == QDigit(cur, b)
                   IN <<<<q>> \o acc[1], Minus(cur, MulSmall(b, q))>>, <<<<>>, <<>>>>, Ix(Len(a)))
       IN Trim(r[1])

SumBig(s) == FoldLeft(LAMBDA acc, a : Add(acc, a), <<>>, s)
AbsDiff(a, b) == IF Cmp(a, b) >= 0 THEN Minus(a, b) ELSE Minus(b, a)

(***************************************************************************)
(* Fixed point with FracLimbs limbs after the point (10^-12 units).  A      *)
(* recorded double is a record [s |-> sign 0/1, m |-> limbs] for a finite   *)
(* value, or s = 2 (NaN), 3 (+inf), 4 (-inf).                               *)
(***************************************************************************)
FracLimbs == 3
One == <<0, 0, 0, 1>>
FxInt(n) == Shift(FromNat(n), FracLimbs)
Finite(x) == x.s \in {0, 1}
NonNeg(x) == x.s = 0 \/ (x.s = 1 /\ x.m = <<>>)
\* product and quotient of fixed-point magnitudes (rounded down)
Drop(a, k) == IF Len(a) <= k THEN <<>> ELSE SubSeq(a, k + 1, Len(a))
FxMul(a, b) == Drop(Mul(a, b), FracLimbs)
FxDiv(a, b) == Div(Shift(a, FracLimbs), b)
\* signed difference as a magnitude
SDiff(x, y) == IF x.s = y.s THEN AbsDiff(x.m, y.m) ELSE Add(x.m, y.m)
\* 10^k, k = 0..
Pow10(k) == Shift(<<<<1, 10, 100, 1000>>[(k % 4) + 1]>>, k \div 4)
\* |a - b| <= 10^-12 * (absolute units u + b / 10^r)
Near(a, b, u, r) == Le(AbsDiff(a, b), Add(FromNat(u), Div(b, Pow10(r))))
============================================================================
