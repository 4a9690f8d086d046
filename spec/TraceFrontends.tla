---------------------------- MODULE TraceFrontends -------------------------
(* The same question put to both front ends (C17).  ev.r and ev.py hold     *)
(* what was asked and what came back; that the questions correspond is      *)
(* checked here too.                                                        *)
EXTENDS Frontends, Big, Trace
VARIABLES ev, phase
vars == <<ev, phase>>
Init == phase = "judge" /\ \E i \in DOMAIN Events : ev = Events[i]

\* recorded doubles (10^-12): equal up to 10^-9 relative
Close(x, y) == IF Finite(x) /\ Finite(y) THEN Le(SDiff(x, y), Add(FromNat(10), Div(Add(x.m, y.m), Pow10(9)))) ELSE x.s = y.s
CloseArrays(A, C) == A.d = C.d /\ \A k \in DOMAIN A.v : Close(A.v[k], C.v[k])
Rq == ev.r
Pq == ev.py
Both == Rq.out = "ok" /\ Pq.out = "ok"

Question ==
  CASE ev.kind = "problem" ->
         LET nd == NDims([idx |-> Rq.idx, m |-> Rq.m])
             q == AskPython(nd, Rq.idx, Rq.m)
         IN Pq.idx = q.idx /\ Pq.m = q.m /\ (Has(Rq, "seed") => Pq.seed = Transposed(Rq.seed))
    [] ev.kind = "array" -> Pq.a = Transposed(Rq.a)
    [] OTHER -> Pq.a = Rq.a
SameScalars == DOMAIN Rq.num \ {"none"} = DOMAIN Pq.num \ {"none"}
Clauses ==
  IF ~Question THEN << <<"GEN:questions-differ", FALSE>> >>
  ELSE IF ~Both THEN << <<"C17:only-one-front-end-answers-" \o ev.fn, Rq.out = Pq.out>> >>
  ELSE CASE ev.kind \in {"problem", "array"} ->
         << <<"C17:result-of-" \o ev.fn, CloseArrays(Rq.res, FromPython(Pq.res))>>,
            <<"C17:expectation-of-" \o ev.fn, Has(Rq, "exp") = Has(Pq, "exp") /\ (Has(Rq, "exp") => CloseArrays(Rq.exp, FromPython(Pq.exp)))>>,
            <<"C17:conv-of-" \o ev.fn, Rq.conv = Pq.conv>>,
            <<"C17:integers-of-" \o ev.fn, \A f \in DOMAIN Rq.int : f \in DOMAIN Pq.int /\ Rq.int[f] = Pq.int[f]>>,
            <<"C17:statistics-of-" \o ev.fn, \A f \in DOMAIN Rq.num : f \in DOMAIN Pq.num /\ Close(Rq.num[f], Pq.num[f])>> >>
    [] ev.kind = "vector" ->
         << <<"C17:result-of-" \o ev.fn, CloseArrays(Rq.res, Pq.res)>>,
            <<"C17:statistics-of-" \o ev.fn, \A f \in DOMAIN Rq.num : Close(Rq.num[f], Pq.num[f])>> >>
    [] ev.kind = "columns" ->
         << <<"C17:result-of-" \o ev.fn, Rq.cols = [i \in DOMAIN Pq.cols |-> [j \in DOMAIN Pq.cols[i] |-> Pq.cols[i][j] + 1]]>> >>
    [] ev.kind = "points" -> << <<"C17:result-of-" \o ev.fn, Rq.pts = Pq.pts>> >>
Judge == phase = "judge" /\ Verdict(ev.id, Clauses) /\ phase' = "end" /\ UNCHANGED ev
Next == Judge
Spec == Init /\ [][Next]_vars
Sane == phase \in {"judge", "end"}
============================================================================
