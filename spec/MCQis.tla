------------------------------- MODULE MCQis -------------------------------
(* Exhaustive exploration of Qis for all small problems, with an arbitrary *)
(* sequence of points: any possible value may be chosen at each step.      *)
EXTENDS Qis, MCProblems

CONSTANT MaxPop, Big3     \* population bound; whether to include the larger 3-d structures

Structures ==
  << [idx |-> <<<<0>>, <<1>>>>, d |-> <<2, 3>>],
     [idx |-> <<<<1>>, <<0>>>>, d |-> <<2, 2>>],
     [idx |-> <<<<0, 1>>, <<1>>>>, d |-> <<2, 2>>],
     [idx |-> <<<<1>>, <<1, 0>>>>, d |-> <<2, 2>>],
     [idx |-> <<<<0>>, <<1>>, <<2>>>>, d |-> <<2, 2, 2>>],
     [idx |-> <<<<2, 0>>, <<1>>>>, d |-> <<2, 2, 2>>],
     [idx |-> <<<<0, 1>>, <<1, 0>>>>, d |-> <<2, 2>>],
     [idx |-> <<<<0, 1>>, <<2, 1>>>>, d |-> <<2, 2, 2>>],
     [idx |-> <<<<0, 1>>, <<1, 0, 2>>>>, d |-> <<2, 2, 2>>] >>
  \o (IF Big3 THEN << [idx |-> <<<<0, 1>>, <<1, 2>>, <<0, 2>>>>, d |-> <<2, 2, 2>>],
                      [idx |-> <<<<0, 1>>, <<1, 2>>, <<2, 3>>>>, d |-> <<2, 1, 2, 2>>] >> ELSE <<>>)

ProbSet == UNION {UNION {Problems(Structures[i].idx, Structures[i].d, t) : t \in 0..MaxPop} : i \in DOMAIN Structures}
WithFlag(p) == Prep(p) @@ [decomposable |-> Decomposable(p)]
MCProbs == TLCEval({WithFlag(p) : p \in ProbSet})

Init == Pr \in MCProbs /\ QisInit(0)
Next == \/ Draw(LAMBDA y : y)
        \/ Assign(Possible)
        \/ Commit
        \/ Finish
Spec == Init /\ [][Next]_qisVars /\ WF_qisVars(Next)

\* every step of Qis is a step of Alloc (or changes nothing there)
Refines == [][AllocNext]_allocVars
Terminates == <>(pc \in {"done", "failed"})
\* a variant that shows that every behaviour ends: this grows with every step and is bounded
Progress == 100 * n + Cardinality({i \in DOMAIN coord : coord[i] >= 0})
\* controls: these are false for marginals that are not decomposable
NoFailure == pc # "failed"
NoDisagreement == pc = "done" => ok
============================================================================
