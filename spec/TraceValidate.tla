---------------------------- MODULE TraceValidate --------------------------
(* Verdicts of the implementation on raw calls (C14).                       *)
EXTENDS Validate, Trace
VARIABLES ev, phase
vars == <<ev, phase>>
Init == phase = "judge" /\ \E i \in DOMAIN Events : ev = Events[i]
\* what R is asked with dimension numbers from 1 is the same problem reversed
Core == IF ev.api = "r" THEN FromR([ev.q EXCEPT !.idx = [k \in DOMAIN ev.q.idx |-> [i \in DOMAIN ev.q.idx[k] |-> ev.q.idx[k][i] + 1]]]) @@ ev.q
        ELSE ev.q
Clauses(r) ==     \* r: what one of the functions did
  LET q == ev.q
      acc == /\ (r.fn \in {"ipf", "qisi"} => ev.badseed = 0) /\ ev.badvalue = 0
             /\ Accepts(r.fn, q)
      sure == acc /\ Certain(r.fn, Core)
  IN << <<"C14:malformed-problem-accepted-by-" \o r.fn, acc \/ r.out # "ok">>,
        <<"C14:well-formed-problem-refused-by-" \o r.fn, ~sure \/ r.out = "ok">>,
        <<"C14:shape-of-result-of-" \o r.fn, (r.out = "ok" /\ acc) => r.shape = Sizes(q)>> >>
Judge ==
  /\ phase = "judge"
  /\ Verdict(ev.id, FoldLeft(LAMBDA acc, r : acc \o Clauses(r), <<>>, ev.outs))
  /\ phase' = "end" /\ UNCHANGED ev
Spec == Init /\ [][Judge]_vars
Sane == phase \in {"judge", "end"}
============================================================================
