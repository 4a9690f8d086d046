----------------------------- MODULE TraceQisi -----------------------------
(* Recorded results of qisi as behaviours of Qisi driven by the Sobol      *)
(* sequence (C08).  Where the specification is nondeterministic (ties) some *)
(* behaviour must end in the recorded result: a record without an ACCEPT    *)
(* line is rejected.                                                        *)
EXTENDS Qisi, Sobol, Trace

VARIABLES ev, phase, pos, dirs, want
vars == <<Pr, res, tab, n, pc, x, coord, fit, slack, ev, phase, pos, want, dirs>>

CoreProblem(e) == IF e.api = "r" THEN FromR(e.p) ELSE e.p
CoreArray(e, A) == IF e.api = "r" THEN Transposed(A) ELSE A
NoSkip(e) == e.skips = <<0, 0>>

Init == \E i \in DOMAIN Events :
          /\ ev = Events[i]
          /\ Pr = LET p == CoreProblem(ev)
                      q == Prep(p)
                      s == CoreArray(ev, ev.seed)
                  IN q @@ [seed |-> s.v, coords |-> Coords(q.d),
                           sure |-> Disjoint(p) /\ \A c \in DOMAIN s.v : s.v[c] # <<>>]
          /\ dirs = [c \in 1..Len(Pr.d) |-> IF c = 1 THEN FirstDirs ELSE Dirs(JoeKuo[c - 1])]
          /\ QisiInit([c \in 1..Len(Pr.d) |-> IF NoSkip(ev) THEN Zero ELSE AfterPow2Of(dirs[c], SkipExp(ev.skips))])
          /\ phase = "run" /\ pos = 0
          /\ want = IF ev.out = "ok" /\ Len(ev.res.v) = Pr.size THEN CoreArray(ev, ev.res).v ELSE <<>>

RightZeroAt(e, i) == IF e < 30 THEN RightZero(P2(e) + i) ELSE RightZero(i)
NextPoint(y) == [c \in DOMAIN y |->
   XorW(y[c], dirs[c][(IF NoSkip(ev) THEN RightZero(pos) ELSE RightZeroAt(SkipExp(ev.skips), pos)) + 1])]

Go == phase = "run" /\ (ev.out = "ok" => ev.res.d = ev.seed.d)
RunFit    == Go /\ Refit /\ UNCHANGED <<ev, phase, pos, want, dirs>>
RunDraw   == Go /\ Draw(NextPoint) /\ pos' = pos + 1 /\ UNCHANGED <<ev, phase, want, dirs>>
RunAssign == Go /\ Assign(LAMBDA ws, dim : FuzzyInverse(ws, x[dim + 1])) /\ UNCHANGED <<ev, phase, pos, want, dirs>>
\* behaviours that already have too many individuals in a cell need not be followed
RunCommit == Go /\ Commit /\ (want # <<>> => tab'[CellOf(Pr.d, coord)] <= want[CellOf(Pr.d, coord)]) /\ UNCHANGED <<ev, phase, pos, want, dirs>>
RunFinish == Go /\ Finish /\ UNCHANGED <<ev, phase, pos, want, dirs>>

Agrees == CASE pc = "unfit"  -> ~Pr.sure
            [] pc = "failed" -> ev.out = "err" /\ ~Pr.sure
            [] pc = "done"   -> ev.out = "ok" /\ want = tab /\ ev.conv = NonNegRes /\ (Pr.sure => ev.conv)
Judge == /\ Go /\ pc \in {"done", "failed", "unfit"}
         /\ Agrees
         /\ PrintT("ACCEPT " \o ev.id \o " " \o pc)
         /\ phase' = "end"
         /\ UNCHANGED <<Pr, res, tab, n, pc, x, coord, fit, slack, ev, pos, want, dirs>>
Next == RunFit \/ RunDraw \/ RunAssign \/ RunCommit \/ RunFinish \/ Judge
Spec == Init /\ [][Next]_vars
Sane == Total /\ Conservation /\ GuaranteedFit /\ FitMatchesResiduals
============================================================================
