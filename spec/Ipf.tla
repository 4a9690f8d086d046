-------------------------------- MODULE Ipf --------------------------------
(* Iterative proportional fitting in fixed-point arithmetic: each step     *)
(* rescales the array to one of the marginals.  Magnitudes only (all        *)
(* values are non-negative); 10^-12 units.                                  *)
EXTENDS IpfOps

VARIABLES q,      \* [d, size, md, proj, m (marginal values, fixed point), seed (any units), zero (cells that are zero in the seed)]
          arr,    \* the array
          k,      \* next marginal to fit
          it      \* complete sweeps done
ipfVars == <<q, arr, k, it>>

\* an Ipf problem from index lists, marginals as fixed-point magnitudes, and a seed
IpfProblem(idx, marginals, seed) ==
  [d |-> seed.d, size |-> Size(seed.d),
   md |-> [j \in DOMAIN marginals |-> marginals[j].d],
   proj |-> [j \in DOMAIN idx |-> Proj(seed.d, idx[j])],
   m |-> [j \in DOMAIN marginals |-> marginals[j].v],
   seed |-> seed.v]

Margin(a, j) == MarginOf(q.proj, q.m, a, j)
MaxError(a)  == MaxErrorOf(q.proj, q.m, a)

IpfInit == arr = q.seed /\ k = 1 /\ it = 0

\* fit marginal k: cells whose sum is zero become zero
Fit ==
  /\ arr' = FitTo(q.proj, q.m, arr, k)
  /\ IF k = Len(q.m) THEN k' = 1 /\ it' = it + 1 ELSE k' = k + 1 /\ it' = it
  /\ UNCHANGED q

(***************************************************************************)
(* Properties.                                                              *)
(***************************************************************************)
ZerosKept == q # <<>> => \A c \in DOMAIN arr : q.seed[c] = <<>> => arr[c] = <<>>
\* right after marginal j has been fitted it is met, where that is possible at all (up to rounding)
JustFitted ==
  (k > 1 \/ it > 0) =>
    LET j == IF k = 1 THEN Len(q.m) ELSE k - 1
        s == Margin(arr, j)
    IN \A i \in DOMAIN s : s[i] = <<>> \/ Le(AbsDiff(s[i], q.m[j][i]), FromNat(q.size))
============================================================================
