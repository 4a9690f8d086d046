------------------------------ MODULE TraceQis -----------------------------
(* Recorded results of qis as behaviours of Qis driven by the Sobol        *)
(* sequence: the table must be the one the specification arrives at (C03). *)
EXTENDS Qis, Sobol, Trace

VARIABLES ev, phase, pos, dirs  \* the record; "run", "end"; points taken since the skip; direction numbers (never change)
vars == <<Pr, res, tab, n, pc, x, coord, at, ok, ev, phase, pos, dirs>>

CoreProblem(e) == IF e.api = "r" THEN FromR(e.p) ELSE e.p
CoreArray(e, A) == IF e.api = "r" THEN Transposed(A) ELSE A

\* skips travel as <<hi, lo>>
Init == \E i \in DOMAIN Events :
          /\ ev = Events[i]
          /\ Pr = Prep(CoreProblem(ev))
          /\ dirs = [c \in 1..Len(Pr.d) |-> IF c = 1 THEN FirstDirs ELSE Dirs(JoeKuo[c - 1])]
          /\ QisInit([c \in 1..Len(Pr.d) |-> AfterPow2Of(dirs[c], SkipExp(ev.skips))])
          /\ phase = "run" /\ pos = 0

\* lowest zero bit of the position 2^e + i (too large for a TLC integer if e = 31)
RightZeroAt(e, i) ==   \* position 2^e + i, i < 2^31
  IF e < 30 THEN RightZero(P2(e) + i) ELSE RightZero(i)
NextPoint(y) == [c \in DOMAIN y |-> XorW(y[c], dirs[c][RightZeroAt(SkipExp(ev.skips), pos) + 1])]

RunDraw   == phase = "run" /\ Draw(NextPoint) /\ pos' = pos + 1 /\ UNCHANGED <<ev, phase, dirs>>
\* the state after m points is point number m; Draw moves on to the next point, and the individual uses that
Choice(w, dim) == InverseCdf(w, x[dim + 1])
RunAssign == phase = "run" /\ Assign(Choice) /\ UNCHANGED <<ev, phase, pos, dirs>>
RunCommit == phase = "run" /\ Commit /\ UNCHANGED <<ev, phase, pos, dirs>>
RunFinish == phase = "run" /\ Finish /\ UNCHANGED <<ev, phase, pos, dirs>>

Clauses ==
  IF pc = "failed" THEN << <<"C03:returned-where-no-value-is-possible", ev.out = "err">> >>
  ELSE IF ev.out = "err" THEN << <<"C03:failed", FALSE>> >>
  ELSE << <<"C03:sample", CoreArray(ev, ev.res) = [d |-> Pr.d, v |-> tab]>>,
          <<"C03:conv", ev.conv = ok>> >>
Judge == /\ phase = "run" /\ pc \in {"done", "failed"}
         /\ Verdict(ev.id, Clauses)
         /\ phase' = "end"
         /\ UNCHANGED <<Pr, res, tab, n, pc, x, coord, at, ok, ev, pos, dirs>>
Next == RunDraw \/ RunAssign \/ RunCommit \/ RunFinish \/ Judge
Spec == Init /\ [][Next]_vars
Sane == Total /\ Conservation /\ OkCriterion
============================================================================
