------------------------------- MODULE MCQisi ------------------------------
(* Qisi on all small problems with every possible choice of cell.          *)
EXTENDS Qisi, MCProblems
CONSTANTS MaxPop, Zeros      \* Zeros: also seeds with zero cells
Structures ==
  << [idx |-> <<<<0>>, <<1>>>>, d |-> <<2, 2>>, seeds |-> {<<1, 1, 1, 1>>, <<1, 2, 3, 1>>, <<5, 1, 1, 5>>}],
     [idx |-> <<<<1>>, <<0>>>>, d |-> <<2, 2>>, seeds |-> {<<3, 1, 1, 2>>}],
     [idx |-> <<<<1>>, <<0, 2>>>>, d |-> <<2, 2, 1>>, seeds |-> {<<3, 1, 1, 2>>}] >>
  \o (IF Zeros THEN << [idx |-> <<<<0>>, <<1>>>>, d |-> <<2, 2>>, seeds |-> {<<1, 0, 1, 1>>, <<0, 1, 1, 0>>}],
                       [idx |-> <<<<0, 1>>, <<1>>>>, d |-> <<2, 2>>, seeds |-> {<<1, 2, 1, 1>>}] >> ELSE <<>>)
WithSeed(p, s) ==
  LET q == Prep(p)
  IN q @@ [seed |-> [c \in DOMAIN s |-> FxInt(s[c])], coords |-> Coords(q.d),
           sure |-> (\A c \in DOMAIN s : s[c] > 0) /\ Disjoint(p)]
MCProbs == TLCEval(UNION {UNION {{WithSeed(p, s) : p \in Problems(Structures[i].idx, Structures[i].d, t), s \in Structures[i].seeds}
                                 : t \in 0..MaxPop} : i \in DOMAIN Structures})
Init == Pr \in MCProbs /\ QisiInit(0)
Next == Refit \/ Draw(LAMBDA y : y) \/ Assign(AnyPositive) \/ Commit \/ Finish
Spec == Init /\ [][Next]_qisiVars /\ WF_qisiVars(Next)
Refines == [][AllocNext]_allocVars
Terminates == <>(pc \in {"done", "failed", "unfit"})
AlwaysFits == pc \notin {"unfit", "failed"}
============================================================================
