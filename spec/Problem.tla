------------------------------ MODULE Problem ------------------------------
(* Microsynthesis problems: a list of marginal arrays and, for each, the    *)
(* dimensions (of the overall array) it covers.                             *)
EXTENDS Nd

\* the dimensions mentioned, and the size each is given (first mention)
DimSet(p) == UNION {SetOf(p.idx[k]) : k \in DOMAIN p.idx}
NDims(p)  == Cardinality(DimSet(p))
SizeOf(p, dim) ==
  LET k == CHOOSE k \in DOMAIN p.idx : dim \in SetOf(p.idx[k]) /\ \A l \in 1..(k-1) : dim \notin SetOf(p.idx[l])
      i == CHOOSE i \in DOMAIN p.idx[k] : p.idx[k][i] = dim
  IN p.m[k].d[i]
Sizes(p) == [i \in 1..NDims(p) |-> SizeOf(p, i - 1)]

\* the problem solved when a problem is posed to the R front end: dimensions numbered from 1,
\* reversed; the list of marginals reversed
FromR(p) ==
  LET D == NDims(p)
      K == Len(p.idx)
  IN [idx |-> [k \in 1..K |-> [i \in 1..Len(p.idx[K + 1 - k]) |-> D - p.idx[K + 1 - k][i]]],
      m   |-> [k \in 1..K |-> p.m[K + 1 - k]]]

\* everything the samplers need, computed once per problem
Prep(p) ==
  LET d == Sizes(p)
  IN [idx  |-> p.idx,
      md   |-> [k \in DOMAIN p.m |-> p.m[k].d],
      m    |-> [k \in DOMAIN p.m |-> p.m[k].v],
      d    |-> d,
      size |-> Size(d),
      pop  |-> SumSeq(p.m[1].v),
      proj |-> [k \in DOMAIN p.m |-> Proj(d, p.idx[k])],
      mc   |-> [k \in DOMAIN p.m |-> Coords(p.m[k].d)]]     \* coordinates of each marginal's cells

(***************************************************************************)
(* Consistency.                                                             *)
(***************************************************************************)
Pos(ds, x) == CHOOSE i \in DOMAIN ds : ds[i] = x
\* totals of marginal k over the dimensions in the (sorted) list ds
Over(p, k, ds) == Reduce(p.m[k], [i \in DOMAIN ds |-> Pos(p.idx[k], ds[i]) - 1])
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Shared(p, k, l) == SetOf(p.idx[k]) \cap SetOf(p.idx[l])
Agree(p, k, l) ==
  LET s == Sorted(Shared(p, k, l))
  IN IF s = <<>> THEN SumSeq(p.m[k].v) = SumSeq(p.m[l].v)
     ELSE Over(p, k, s).v = Over(p, l, s).v
PairwiseConsistent(p) == \A k, l \in DOMAIN p.m : k < l => Agree(p, k, l)
\* running intersection: what each marginal shares with all the earlier ones lies in a single earlier one
RunningIntersection(p) ==
  \A k \in DOMAIN p.idx : k > 1 =>
     LET before == UNION {SetOf(p.idx[l]) : l \in 1..(k-1)}
         s == SetOf(p.idx[k]) \cap before
     IN \E l \in 1..(k-1) : s \subseteq SetOf(p.idx[l])
Disjoint(p) == \A k, l \in DOMAIN p.idx : k # l => Shared(p, k, l) = {}
Decomposable(p) == RunningIntersection(p) /\ PairwiseConsistent(p)
============================================================================
