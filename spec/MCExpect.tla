------------------------------ MODULE MCExpect -----------------------------
(* For all small problems with disjoint marginals: the reference            *)
(* distribution has exactly the marginals it was made from.                 *)
EXTENDS Expect, MCProblems
CONSTANT MaxPop
Structures ==
  << [idx |-> <<<<0>>, <<1>>>>, d |-> <<2, 3>>],
     [idx |-> <<<<1>>, <<0>>>>, d |-> <<3, 2>>],
     [idx |-> <<<<2, 0>>, <<1>>>>, d |-> <<2, 2, 2>>],
     [idx |-> <<<<2>>, <<0>>, <<1>>>>, d |-> <<2, 2, 3>>] >>
VARIABLES p
Init == \E i \in DOMAIN Structures : \E t \in 0..MaxPop : p \in Problems(Structures[i].idx, Structures[i].d, t)
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
\* sums over cells of weight * pop / total = marginal value, cross-multiplied
MarginalsExact ==
  LET q == Prep(p)
      w == Weights(q)
      t == SumBig(w)
  IN \A j \in DOMAIN q.m : \A i \in DOMAIN q.m[j] :
       MulNat(SumBig([c \in 1..q.size |-> IF q.proj[j][c] = i THEN w[c] ELSE <<>>]), q.pop) = MulNat(t, q.m[j][i])
============================================================================
