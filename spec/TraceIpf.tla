------------------------------ MODULE TraceIpf -----------------------------
(* Recorded results of ipf (Python or R).                                   *)
(* kind "report": the statistics describe the array returned (C05).         *)
(* kind "witness": a solution seed * factors is known; the specification    *)
(*   verifies it and the array returned must be that solution (C06).        *)
(* kind "replay": the Ipf machine is run on the same problem (C06).         *)
EXTENDS Ipf, Trace

VARIABLES ev, phase
vars == <<q, arr, k, it, ev, phase>>

\* dimensions in R are numbered from 1 and reversed, and the list of marginals is reversed
Nd_(e) == Len(e.seed.d)
CoreIdx(e) == IF e.api = "r" THEN [j \in DOMAIN e.idx |-> [i \in DOMAIN e.idx[Len(e.idx) + 1 - j] |-> Nd_(e) - e.idx[Len(e.idx) + 1 - j][i]]] ELSE e.idx
CoreM(e) == IF e.api = "r" THEN Reverse_(e.m) ELSE e.m
CoreArray(e, A) == IF e.api = "r" THEN Transposed(A) ELSE A
Mags(A) == [d |-> A.d, v |-> [i \in DOMAIN A.v |-> A.v[i].m]]

ShapeOK == ev.res.d = ev.seed.d /\ Len(ev.res.v) = Size(ev.seed.d)
SeedMag == [d |-> ev.seed.d, v |-> [i \in DOMAIN ev.seed.v |-> ev.seed.v[i].m]]

Init == /\ \E i \in DOMAIN Events : ev = Events[i]
        /\ q = <<>> /\ arr = <<>> /\ k = 1 /\ it = 0
        /\ phase = "load"
Load == /\ phase = "load"
        /\ q' = LET cm == CoreM(ev)
                IN IpfProblem(CoreIdx(ev), [j \in DOMAIN cm |-> Mags(cm[j])], CoreArray(ev, SeedMag))
        /\ arr' = q'.seed
        /\ phase' = IF ev.kind = "replay" /\ ev.out = "ok" /\ ShapeOK THEN "run" ELSE "judge"
        /\ UNCHANGED <<ev, k, it>>

\* the machine runs until it is within 10^-9, or has done a few more sweeps than the implementation reported
RunStep == /\ phase = "run"
           /\ IF Le(MaxError(arr), FromNat(1000)) \/ it > ev.iters + 2
              THEN phase' = "judge" /\ UNCHANGED <<q, arr, k, it, ev>>
              ELSE Fit /\ UNCHANGED <<ev, phase>>

R == CoreArray(ev, ev.res).v
Rm == [c \in DOMAIN R |-> R[c].m]
AllFinite == \A c \in DOMAIN R : Finite(R[c])

(***************************************************************************)
(* C05                                                                      *)
(***************************************************************************)
\* summation error allowed: fixed-point rounding of each cell, and of each addition in double precision
SumTol == FoldLeft(LAMBDA acc, j : Add(acc, SumBig(q.m[j])), FromNat(q.size + 20), <<>>)
TolFor(total) == Add(FromNat(2 * q.size + 20), Div(MulNat(total, q.size + 10), Pow10(15)))
MEtrue == MaxError(Rm)
\* maxError is recorded twice: e.me in 10^-12 units, e.me24 in 10^-24 units (for the comparison with 10^-8)
Report ==
  LET total == BigMax([j \in DOMAIN q.m |-> SumBig(q.m[j])])
      rtotal == SumBig(Rm)
      tol == TolFor(IF Cmp(rtotal, total) > 0 THEN rtotal ELSE total)
  IN << <<"C05:conv-iff-below-tolerance", ev.conv = (Finite(ev.me) /\ Cmp(ev.me24, Pow10(16)) < 0)>>,
        <<"C05:conv-with-nan", ev.conv => AllFinite>>,
        <<"C05:maxError", (AllFinite /\ Cmp(total, Pow10(24)) < 0) => (Finite(ev.me) /\ NonNeg(ev.me) /\ Le(AbsDiff(ev.me.m, MEtrue), tol))>>,
        <<"C05:maxError-of-nan", (\E c \in DOMAIN R : R[c].s = 2) => ~Finite(ev.me)>>,
        <<"C05:population", Le(AbsDiff(FxInt(ev.pop), SumBig(q.m[1])), Add(Div(FxInt(1), <<2>>), TolFor(total)))>>,
        <<"C05:iterations", ev.iters \in 1..1000 /\ (~ev.conv => ev.iters = 1000)>>,
        <<"C05:negative", \A c \in DOMAIN R : Finite(R[c]) => NonNeg(R[c])>>,
        <<"C05:zero-of-seed", \A c \in DOMAIN R : q.seed[c] = <<>> => (R[c].s = 2 \/ R[c] = [s |-> 0, m |-> <<>>])>> >>

(***************************************************************************)
(* C06                                                                      *)
(***************************************************************************)
\* the claimed solution, times den: seed (as integers) times the factors
Solution ==
  LET cs == CoreArray(ev, [d |-> ev.seed.d, v |-> ev.iseed]).v
      f == IF ev.api = "r" THEN Reverse_(ev.fac) ELSE ev.fac
  IN [c \in DOMAIN cs |-> FoldLeftDomain(LAMBDA acc, j : MulNat(acc, f[j][q.proj[j][c]]), FromNat(cs[c]), f)]
\* den * marginals of the array returned by the fit must be the marginals of the solution, or the witness is no witness
WitnessValid(x) ==
  \A j \in DOMAIN q.m : LET s == Margin(x, j) IN
     \A i \in DOMAIN s : Le(AbsDiff(Shift(s[i], FracLimbs), MulNat(q.m[j][i], ev.den)), Add(FromNat(ev.den), Div(Shift(s[i], FracLimbs), Pow10(14))))
CloseTo(got, want) == Le(AbsDiff(got, want), Add(Pow10(7), Div(want, Pow10(5))))    \* 10^-5 (1 + want)
Witness ==
  LET x == Solution
  IN IF ~WitnessValid(x) THEN << <<"GEN:witness", FALSE>> >>
     ELSE << <<"C06:converged", ev.conv>>,
             <<"C06:is-the-solution", AllFinite /\ \A c \in DOMAIN x : CloseTo(Rm[c], Div(Shift(x[c], FracLimbs), FromNat(ev.den)))>>,
             <<"C06:zeros", \A c \in DOMAIN x : x[c] = <<>> <=> Rm[c] = <<>>>> >>
Replay ==
  << <<"C06:fit", Le(MaxError(arr), FromNat(1000)) => (ev.conv /\ AllFinite /\ \A c \in DOMAIN arr : CloseTo(Rm[c], arr[c]))>>,
     <<"C06:claims-a-fit-that-is-not-one", (AllFinite /\ ev.conv) => \A c \in DOMAIN arr : CloseTo(Rm[c], arr[c])>> >>

Clauses ==
  IF ev.out # "ok" THEN << <<(IF ev.kind = "report" THEN "C05:error" ELSE "C06:error"), ev.kind = "report" /\ ev.mayfail>> >>
  ELSE IF ~ShapeOK THEN << <<(IF ev.kind = "report" THEN "C05:shape" ELSE "C06:shape"), FALSE>> >>
  ELSE CASE ev.kind = "report" -> Report [] ev.kind = "witness" -> Witness [] ev.kind = "replay" -> Replay
Judge == /\ phase = "judge"
         /\ Verdict(ev.id, Clauses)
         /\ phase' = "end"
         /\ UNCHANGED <<q, arr, k, it, ev>>
Next == Load \/ RunStep \/ Judge
Spec == Init /\ [][Next]_vars
Sane == phase \in {"run", "judge"} => (ZerosKept /\ (ev.kind = "replay" => JustFitted))
============================================================================
