------------------------------ MODULE Validate -----------------------------
(* When a microsynthesis problem is well-formed.  A raw call is a record    *)
(* [idx, m, seed, skips]: lists of dimension numbers, list of arrays, the   *)
(* seed array and the skips (a word; <<h, l>> with h outside 0..65535 is    *)
(* out of range).  Nothing about it can be taken for granted.               *)
EXTENDS Problem

SameLength(q) == Len(q.idx) = Len(q.m) /\ Len(q.idx) >= 2
RanksMatch(q) == \A k \in DOMAIN q.idx : Len(q.idx[k]) = Len(q.m[k].d) /\ Len(q.m[k].d) >= 1
NoRepeats(q)  == \A k \in DOMAIN q.idx : Cardinality(SetOf(q.idx[k])) = Len(q.idx[k])
DimsComplete(q) == LET s == UNION {SetOf(q.idx[k]) : k \in DOMAIN q.idx}
                   IN Cardinality(s) >= 2 /\ s = 0..(Cardinality(s) - 1)
\* every mention of a dimension gives it the same size
SizesAgree(q) == \A k, l \in DOMAIN q.idx : \A i \in DOMAIN q.idx[k], j \in DOMAIN q.idx[l] :
                    q.idx[k][i] = q.idx[l][j] => q.m[k].d[i] = q.m[l].d[j]
NonNegative(q) == \A k \in DOMAIN q.m : \A i \in DOMAIN q.m[k].v : q.m[k].v[i] >= 0
\* marginals of ipf may be fractional: their values are in units of 1/q.unit
UnitOf(q) == IF "unit" \in DOMAIN q THEN q.unit ELSE 1
Total(q, k) == LET s == SumSeq(q.m[k].v) u == UnitOf(q) IN IF s < 0 THEN s \div u ELSE (s \div u) + (IF 2 * (s % u) >= u THEN 1 ELSE 0)
TotalsAgree(q) == \A k \in DOMAIN q.m : Total(q, k) = Total(q, 1)
DimTotalsAgree(q) == \A k, l \in DOMAIN q.m : k < l => \A dim \in Shared(q, k, l) : Over(q, k, <<dim>>).v = Over(q, l, <<dim>>).v
NonEmpty(q) == \A k \in DOMAIN q.m : Len(q.m[k].v) >= 1

WellFormed(q) ==
  /\ SameLength(q) /\ RanksMatch(q) /\ NonEmpty(q) /\ NoRepeats(q) /\ DimsComplete(q) /\ SizesAgree(q)
  /\ NonNegative(q) /\ TotalsAgree(q) /\ DimTotalsAgree(q)
SeedOK(q)  == q.seed.d = Sizes(q) /\ \A c \in DOMAIN q.seed.v : q.seed.v[c] >= 0
SkipsOK(q) == q.skips[1] >= 0 /\ q.skips[1] < 65536

Accepts(fn, q) == /\ WellFormed(q)
                  /\ fn \in {"ipf", "qisi"} => SeedOK(q)
                  /\ fn \in {"qis", "qisi"} => SkipsOK(q)
\* and no allocation can get stuck
Certain(fn, q) == CASE fn = "ipf"  -> TRUE
                    [] fn = "qis"  -> Decomposable(q)
                    [] fn = "qisi" -> Disjoint(q) /\ \A c \in DOMAIN q.seed.v : q.seed.v[c] > 0
============================================================================
