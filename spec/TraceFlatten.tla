---------------------------- MODULE TraceFlatten ---------------------------
(* Recorded calls of flatten (C13).                                         *)
EXTENDS Flatten, Trace
VARIABLES ev, phase
vars == <<A, base, c, done, cols, ev, phase>>

Negative == \E k \in DOMAIN ev.a.v : ev.a.v[k] < 0
BadNames == ev.api = "r" /\ (Len(ev.names) < Len(ev.a.d) \/ \E i, j \in DOMAIN ev.names : i # j /\ ev.names[i] = ev.names[j])
Refused == Negative \/ BadNames
Init == /\ \E j \in DOMAIN Events : ev = Events[j]
        /\ A = ev.a /\ base = (IF ev.api = "r" THEN 1 ELSE 0)
        /\ FlatInit
        /\ phase = IF ev.out = "ok" /\ ~Refused THEN "write" ELSE "judge"
Write == phase = "write" /\ UNCHANGED <<ev, phase>> /\ (NextCell \/ (Occupied /\ Emit(A.v[c] - done)))
Compare == phase = "write" /\ Finished /\ phase' = "judge" /\ UNCHANGED <<A, base, c, done, cols, ev>>
Clauses ==
  IF Refused THEN << <<IF Negative THEN "C13:negative-count-accepted" ELSE "C13:bad-names-accepted", ev.out = "err">> >>
  ELSE IF ev.out # "ok" THEN << <<"C13:refused", FALSE>> >>
  ELSE << <<"C13:columns", Len(ev.cols) = Len(cols)>>,
          <<"C13:rows", \A i \in DOMAIN ev.cols : i <= Len(cols) => Len(ev.cols[i]) = Len(cols[i])>>,
          <<"C13:listing", ev.cols = cols>>,
          <<"C13:names", ev.api # "r" \/ ev.got = SubSeq(ev.names, 1, Len(A.d))>> >>
Judge == phase = "judge" /\ Verdict(ev.id, Clauses) /\ phase' = "end" /\ UNCHANGED <<A, base, c, done, cols, ev>>
Next == Write \/ Compare \/ Judge
Spec == Init /\ [][Next]_vars
Sane == WellFormed /\ Same /\ (Rows(cols) <= 12 => Exact /\ Ordered)
============================================================================
