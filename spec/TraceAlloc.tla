----------------------------- MODULE TraceAlloc ----------------------------
(* Recorded results of qis (Python or R) as behaviours of Alloc: the       *)
(* population returned is placed cell by cell, and must leave exactly what *)
(* was reported (C01).  Decomposable problems must succeed (C02).  Records  *)
(* of qisi carry its seed, its expectation and the result of ipf (C07).     *)
EXTENDS Alloc, Big, Trace

VARIABLES ev, k, phase    \* the record; next cell to place; "replay", "judge", "end"
vars == <<Pr, res, tab, n, ev, k, phase>>

CoreProblem(e) == IF e.api = "r" THEN FromR(e.p) ELSE e.p
CoreArray(e, A) == IF e.api = "r" THEN Transposed(A) ELSE A

Dims(e) == Sizes(CoreProblem(e))
ShapeOK(e) == e.res.d = (IF e.api = "r" THEN Reverse_(Dims(e)) ELSE Dims(e)) /\ Len(e.res.v) = Size(Dims(e))

Init == \E i \in DOMAIN Events :
          /\ ev = Events[i]
          /\ Pr = LET p == CoreProblem(ev) IN Prep(p) @@ [dec |-> RunningIntersection(p) /\ PairwiseConsistent(p)]
          /\ AllocInit
          /\ k = 1
          /\ phase = IF ev.out = "ok" THEN (IF ShapeOK(ev) THEN "replay" ELSE "judge") ELSE "judge"

Table == CoreArray(ev, ev.res).v

\* small tables cell by cell, large ones row by row
Chunk == IF Pr.size <= 64 THEN 1 ELSE IF Pr.size <= 512 THEN 16 ELSE Pr.size
PlaceSome ==
  /\ phase = "replay" /\ k <= Pr.size
  /\ LET t == Table
         hi == Min2(k + Chunk - 1, Pr.size)
         cs == [i \in 1..(hi - k + 1) |-> k + i - 1]
     IN /\ \/ /\ Chunk = 1 /\ Place(k, t[k])
           \/ /\ Chunk > 1
              /\ tab' = [c \in DOMAIN tab |-> IF c >= k /\ c <= hi THEN t[c] ELSE tab[c]]
              /\ res' = [j \in DOMAIN res |->
                           FoldLeft(LAMBDA acc, c : IF t[c] = 0 THEN acc ELSE [acc EXCEPT ![Pr.proj[j][c]] = @ - t[c]], res[j], cs)]
              /\ n' = n + SumSeq([i \in DOMAIN cs |-> t[cs[i]]])
              /\ UNCHANGED Pr
        /\ k' = hi + 1
  /\ UNCHANGED <<ev, phase>>
EndReplay == /\ phase = "replay" /\ k > Pr.size /\ phase' = "judge"
             /\ UNCHANGED <<Pr, res, tab, n, ev, k>>

\* recorded doubles that agree to 10^-6 (1 + value); not-a-number agrees with itself
SameDouble(a, b) == IF Finite(a) /\ Finite(b) THEN Le(SDiff(a, b), Add(<<0, 100>>, Div(b.m, Pow10(6)))) ELSE a.s = b.s
QisClauses ==
  << <<"C01:negative-count", TypeOK>>,
     <<"C01:total-is-population", n = ev.pop>>,
     <<"C01:population-is-marginal-total", \A j \in DOMAIN Pr.m : SumSeq(Pr.m[j]) = ev.pop>>,
     <<"C01:conv-iff-marginals-met", ev.conv = Matched>>,
     <<"C02:not-converged-on-decomposable", Pr.dec => (ev.conv /\ Matched)>> >>
QisiClauses ==
  << <<"C07:negative-count", TypeOK>>,
     <<"C07:total-is-population", n = ev.pop>>,
     <<"C07:population-is-marginal-total", \A j \in DOMAIN Pr.m : SumSeq(Pr.m[j]) = ev.pop>>,
     <<"C07:conv-iff-marginals-met", ev.conv = Matched>>,
     <<"C07:occupied-where-seed-is-zero", \A c \in DOMAIN ev.zero : ev.zero[c] = 1 => ev.res.v[c] = 0>>,
     <<"C07:expectation-shape", ev.exp.d = ev.res.d /\ Len(ev.exp.v) = Len(ev.res.v)>>,
     <<"C07:expectation-is-ipf", Len(ev.exp.v) = Len(ev.ipf) /\ \A c \in DOMAIN ev.ipf : SameDouble(ev.exp.v[c], ev.ipf[c])>> >>
Clauses ==
  IF ev.out = "err" THEN << <<"C02:error-on-decomposable", ev.fn = "qisi" \/ ~Pr.dec>> >>
  ELSE IF ~ShapeOK(ev) THEN << <<(IF ev.fn = "qisi" THEN "C07:shape" ELSE "C01:shape"), FALSE>> >>
  ELSE IF ev.fn = "qisi" THEN QisiClauses ELSE QisClauses
Judge == /\ phase = "judge"
         /\ Verdict(ev.id, Clauses)
         /\ phase' = "end"
         /\ UNCHANGED <<Pr, res, tab, n, ev, k>>
Next == PlaceSome \/ EndReplay \/ Judge
Spec == Init /\ [][Next]_vars
\* holds in every state of every replay
Sane == Total
============================================================================
