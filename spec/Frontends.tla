------------------------------ MODULE Frontends ----------------------------
(* How a question posed to the R front end corresponds to one posed to the  *)
(* Python front end: dimensions numbered from 1 and in reverse, the list of *)
(* marginals in reverse, arrays with their dimensions in reverse.           *)
EXTENDS Problem

\* what a table says about the dimensions listed (numbered from base)
Described(T, idx, base) == [k \in DOMAIN idx |-> Reduce(T, [i \in DOMAIN idx[k] |-> idx[k][i] - base])]
\* the Python question for an R question about nd dimensions
AskPython(nd, idx, m) ==
  LET K == Len(idx)
  IN [idx |-> [k \in 1..K |-> [i \in DOMAIN idx[K + 1 - k] |-> nd - idx[K + 1 - k][i]]], m |-> Reverse_(m)]
\* the answer in R terms for the Python answer
FromPython(A) == Transposed(A)
============================================================================
