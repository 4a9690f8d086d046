------------------------------- MODULE IpfOps ------------------------------
(* Arithmetic of iterative proportional fitting: fixed-point magnitudes    *)
(* (10^-12 units), arrays as sequences of cells.  proj[j][c] is the cell of *)
(* marginal j that cell c contributes to, m[j] its required values.         *)
EXTENDS Problem, Big

\* sums of an array a over the cells of marginal j
MarginOf(proj, m, a, j) ==
  FoldLeftDomain(LAMBDA acc, c : IF a[c] = <<>> THEN acc ELSE [acc EXCEPT ![proj[j][c]] = Add(@, a[c])],
                 [i \in DOMAIN m[j] |-> <<>>], a)

\* rescale a so that marginal j is met; cells whose sum is zero become zero
FitTo(proj, m, a, j) ==
  LET r == MarginOf(proj, m, a, j)
  IN [c \in DOMAIN a |->
        LET i == proj[j][c]
        IN IF a[c] = <<>> \/ r[i] = <<>> THEN <<>> ELSE Div(Mul(a[c], m[j][i]), r[i])]
Sweep(proj, m, a) == FoldLeftDomain(LAMBDA acc, j : FitTo(proj, m, acc, j), a, m)

BigMax(s) == FoldLeft(LAMBDA acc, x : IF Cmp(x, acc) > 0 THEN x ELSE acc, <<>>, s)
\* largest difference between a marginal and the array
MaxErrorOf(proj, m, a) ==
  BigMax([j \in DOMAIN m |-> LET s == MarginOf(proj, m, a, j) IN BigMax([i \in DOMAIN s |-> AbsDiff(s[i], m[j][i])])])

\* <<array, converged>> after at most n sweeps
RECURSIVE SolveFrom(_, _, _, _, _)
SolveFrom(proj, m, a, tol, n) ==
  IF n = 0 THEN <<a, FALSE>>
  ELSE LET b == Sweep(proj, m, a)
       IN IF Le(MaxErrorOf(proj, m, b), tol) THEN <<b, TRUE>> ELSE SolveFrom(proj, m, b, tol, n - 1)
============================================================================
