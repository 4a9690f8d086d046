-------------------------------- MODULE MCIpf ------------------------------
(* Ipf on all small integer problems that have a solution of the required  *)
(* form: it converges to that solution, which is unique, keeping odds       *)
(* ratios and zeros on the way.                                             *)
EXTENDS Ipf, TLC
CONSTANTS SeedMax, FacMax, Sweeps

Structures ==
  << [idx |-> <<<<0>>, <<1>>>>, d |-> <<2, 2>>],
     [idx |-> <<<<1>>, <<0>>>>, d |-> <<2, 2>>],
     [idx |-> <<<<0, 1>>, <<1, 2>>>>, d |-> <<2, 1, 2>>],
     [idx |-> <<<<0>>, <<1, 0>>>>, d |-> <<2, 2>>] >>

VARIABLES raw,     \* the choice of structure, seed and factors
          sol      \* the solution, as integers (<<>> until the problem has been set up)
vars == <<q, arr, k, it, raw, sol>>

Facs(s, j) == [1..Size(SubDims(s.d, s.idx[j])) -> 1..FacMax]
Init == /\ \E n \in DOMAIN Structures :
             LET s == Structures[n] IN
             \E seed \in [1..Size(s.d) -> 0..SeedMax] : \E f \in Facs(s, 1) : \E g \in Facs(s, 2) :
               /\ \E c \in DOMAIN seed : seed[c] > 0
               /\ raw = [n |-> n, seed |-> seed, f |-> <<f, g>>]
        /\ sol = <<>> /\ q = <<>> /\ arr = <<>> /\ k = 1 /\ it = 0
SetUp ==
  /\ sol = <<>>
  /\ LET s == Structures[raw.n]
         pr == [j \in 1..2 |-> Proj(s.d, s.idx[j])]
         x == [c \in 1..Size(s.d) |-> raw.seed[c] * raw.f[1][pr[1][c]] * raw.f[2][pr[2][c]]]
         mg == [j \in 1..2 |-> Reduce([d |-> s.d, v |-> x], s.idx[j])]
     IN /\ q' = IpfProblem(s.idx, [j \in 1..2 |-> [d |-> mg[j].d, v |-> [i \in DOMAIN mg[j].v |-> FxInt(mg[j].v[i])]]],
                           [d |-> s.d, v |-> [c \in DOMAIN raw.seed |-> FxInt(raw.seed[c])]])
        /\ sol' = x
        /\ arr' = q'.seed
  /\ UNCHANGED <<k, it, raw>>
Next == \/ SetUp
        \/ sol # <<>> /\ it < Sweeps /\ ~Le(MaxError(arr), <<100>>) /\ Fit /\ UNCHANGED <<sol, raw>>
Spec == Init /\ [][Next]_vars

Close(a, b, tol) == Le(AbsDiff(a, b), tol)
\* at the end the array is the solution
Converges == sol # <<>> /\ (it = Sweeps \/ Le(MaxError(arr), <<100>>)) => \A c \in DOMAIN arr : Close(arr[c], FxInt(sol[c]), <<0, 10>>)  \* 10^-7
\* with 1-d marginals the 2x2 odds ratio never changes: a11 a22 s12 s21 = a12 a21 s11 s22 (relative 10^-8)
OddsKept ==
  (sol # <<>> /\ q.d = <<2, 2>> /\ \A j \in DOMAIN q.md : Len(q.md[j]) = 1) =>
    LET l == Mul(Mul(arr[1], arr[4]), Mul(q.seed[2], q.seed[3]))
        r == Mul(Mul(arr[2], arr[3]), Mul(q.seed[1], q.seed[4]))
    IN Le(AbsDiff(l, r), Add(Div(l, Pow10(8)), Pow10(42)))
============================================================================
