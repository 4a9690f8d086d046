------------------------------- MODULE Alloc -------------------------------
(* What any synthesiser of integer populations does, however it chooses:    *)
(* place individuals in cells; every marginal keeps the number still wanted *)
(* in each of its cells.                                                    *)
EXTENDS Problem

VARIABLES Pr,         \* the (prepared) problem
          res,        \* residual marginals: counts still wanted
          tab,        \* the population table so far
          n           \* individuals placed

allocVars == <<Pr, res, tab, n>>

AllocInit == /\ res = Pr.m
             /\ tab = [c \in 1..Pr.size |-> 0]
             /\ n = 0

\* place k individuals in cell c
Place(c, k) ==
  /\ tab' = [tab EXCEPT ![c] = @ + k]
  /\ res' = [j \in DOMAIN res |-> [res[j] EXCEPT ![Pr.proj[j][c]] = @ - k]]
  /\ n' = n + k
  /\ UNCHANGED Pr

AllocNext == n < Pr.pop /\ \E c \in 1..Pr.size : Place(c, 1)
AllocSpec == AllocInit /\ [][AllocNext]_allocVars

Complete  == n = Pr.pop
Matched   == \A j \in DOMAIN res : \A i \in DOMAIN res[j] : res[j][i] = 0
NonNegRes == \A j \in DOMAIN res : \A i \in DOMAIN res[j] : res[j][i] >= 0

(***************************************************************************)
(* Invariants.                                                              *)
(***************************************************************************)
TypeOK == /\ \A c \in DOMAIN tab : tab[c] >= 0
          /\ n >= 0
Total  == SumSeq(tab) = n
Conservation ==
  \A j \in DOMAIN res :
     res[j] = FoldLeftDomain(LAMBDA acc, c : IF tab[c] = 0 THEN acc ELSE [acc EXCEPT ![Pr.proj[j][c]] = @ - tab[c]], Pr.m[j], tab)
\* residuals that never became negative are exactly met at the end: the test the samplers use for convergence
ConvCriterion == Complete => (Matched <=> NonNegRes)
============================================================================
