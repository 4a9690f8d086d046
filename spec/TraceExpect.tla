----------------------------- MODULE TraceExpect ---------------------------
(* Expectation and population reported by qis, under several values of     *)
(* skips, against the exact reference distribution (C04).                  *)
EXTENDS Expect, Trace

VARIABLES ev, phase
vars == <<ev, phase>>
CoreProblem(e) == IF e.api = "r" THEN FromR(e.p) ELSE e.p
CoreArray(e, A) == IF e.api = "r" THEN Transposed(A) ELSE A
Init == phase = "judge" /\ \E i \in DOMAIN Events : ev = Events[i]

\* one clause list per run of the same problem
Clauses(q, disjoint, r) ==
  IF r.exp.d # (IF ev.api = "r" THEN Reverse_(q.d) ELSE q.d) \/ Len(r.exp.v) # q.size THEN << <<"C04:shape", FALSE>> >>
  ELSE LET e == CoreArray(ev, r.exp).v
       IN << <<"C04:expectation", ExpectationOK(q, e)>>,
             <<"C04:marginals-of-expectation", (disjoint /\ \A c \in DOMAIN e : Finite(e[c])) => MarginalsReproduced(q, e)>>,
             <<"C04:population", \A j \in DOMAIN q.m : SumSeq(q.m[j]) = r.pop>> >>
Judge == /\ phase = "judge"
         /\ LET p == CoreProblem(ev)
                q == Prep(p)
                dis == Disjoint(p)
            IN Verdict(ev.id, FoldLeft(LAMBDA acc, r : acc \o Clauses(q, dis, r), <<>>, ev.runs)
                              \o << <<"C04:depends-on-skips", \A r \in SetOf(ev.runs) : r.exp = ev.runs[1].exp>> >>)
         /\ phase' = "end" /\ UNCHANGED ev
Next == Judge
Spec == Init /\ [][Next]_vars
Sane == phase \in {"judge", "end"}
============================================================================
