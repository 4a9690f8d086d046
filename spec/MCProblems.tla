---------------------------- MODULE MCProblems ----------------------------
(* All small problems: every list of marginals for a few structures.       *)
EXTENDS Problem, TLC

\* all sequences of length k of naturals with sum s
RECURSIVE Comps(_, _)
Comps(k, s) == IF k = 1 THEN {<<s>>}
               ELSE UNION {{<<a>> \o c : c \in Comps(k - 1, s - a)} : a \in 0..s}

\* structures: idx and the sizes of the overall dimensions
AllArrays(d, total) == {[d |-> d, v |-> c] : c \in Comps(Size(d), total)}
RECURSIVE Lists(_, _, _)
Lists(idx, d, total) ==
  IF idx = <<>> THEN {<<>>}
  ELSE {<<a>> \o l : a \in AllArrays(SubDims(d, Head(idx)), total), l \in Lists(Tail(idx), d, total)}
\* as the implementation does, only the totals per dimension have to agree
OneDimConsistent(p) ==
  \A k, l \in DOMAIN p.m : k < l =>
     \A dim \in Shared(p, k, l) :
        Over(p, k, <<dim>>).v = Over(p, l, <<dim>>).v
Problems(idx, d, total) == {p \in {[idx |-> idx, m |-> l] : l \in Lists(idx, d, total)} : OneDimConsistent(p)}
============================================================================
