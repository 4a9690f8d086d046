------------------------------ MODULE MCUnique -----------------------------
(* Two positive integer arrays with the same marginals and the same odds   *)
(* ratios are equal (what makes "the" fitted array well defined), for all   *)
(* small 2x2 and 2x3 tables.                                                *)
EXTENDS Integers, Nd, TLC
CONSTANTS Top2, Top3
VARIABLES x, y
Top(w) == IF w = 2 THEN Top2 ELSE Top3
Arrays(w) == [1..(2 * w) -> 1..Top(w)]
Rows(a, w) == [i \in 1..2 |-> SumSeq([j \in 1..w |-> a[(i - 1) * w + j]])]
Cols(a, w) == [j \in 1..w |-> a[j] + a[w + j]]
SameOdds(a, b, w) == \A i, j \in 1..w : a[i] * a[w + j] * b[j] * b[w + i] = a[j] * a[w + i] * b[i] * b[w + j]
Init == \E w \in {2, 3} : x \in Arrays(w) /\ y = x
Next == LET w == Len(x) \div 2
        IN /\ y = x
           /\ y' \in {z \in Arrays(w) : Rows(z, w) = Rows(x, w) /\ Cols(z, w) = Cols(x, w)}
           /\ UNCHANGED x
Spec == Init /\ [][Next]_<<x, y>>
Unique == SameOdds(x, y, Len(x) \div 2) => x = y
\* control: without the odds ratios the array is not determined
Determined == x = y
============================================================================
