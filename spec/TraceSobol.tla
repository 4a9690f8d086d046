----------------------------- MODULE TraceSobol ----------------------------
(* Points recorded from the implementation (C11).  A record carries, for a  *)
(* group of coordinates, a list of runs: consecutive points from a given    *)
(* position.  Words are <<hi, lo>>; <<-1, 0>> stands for a value that is    *)
(* not a multiple of 2^-32 in [0,1).                                        *)
EXTENDS Sobol, Trace

VARIABLES ev, dirs, run, i, x, at, bad
vars == <<ev, dirs, run, i, x, at, bad>>
DirsOf(c) == IF c = 1 THEN FirstDirs ELSE Dirs(JoeKuo[c - 1])
\* where a run starts
Base(r) == IF r.skips = <<0, 0>> THEN r.seek ELSE Sum2W(r.seek, SkipTo(r.skips))
StartAt(d, r) == [k \in DOMAIN d |-> StateAt(d[k], Base(r))]
Init == /\ \E j \in DOMAIN Events : ev = Events[j]
        /\ dirs = [k \in DOMAIN ev.coords |-> DirsOf(ev.coords[k])]
        /\ run = 1 /\ i = 0 /\ bad = <<>>
        /\ at = Base(ev.runs[1])
        /\ x = StartAt(dirs, ev.runs[1])
Live == run <= Len(ev.runs)
Step_ == /\ Live /\ i < Len(ev.runs[run].pts)
         /\ x' = [k \in DOMAIN x |-> XorW(x[k], dirs[k][RightZeroW(at) + 1])]
         /\ at' = IncW(at) /\ i' = i + 1
         /\ bad' = IF ev.runs[run].pts[i + 1] = x' THEN bad ELSE Append(bad, run)
         /\ UNCHANGED <<ev, dirs, run>>
NextRun == /\ Live /\ i = Len(ev.runs[run].pts)
           /\ run' = run + 1 /\ i' = 0
           /\ IF run < Len(ev.runs) THEN at' = Base(ev.runs[run + 1]) /\ x' = StartAt(dirs, ev.runs[run + 1])
                                    ELSE UNCHANGED <<at, x>>
           /\ UNCHANGED <<ev, dirs, bad>>
Judge == /\ run = Len(ev.runs) + 1
         /\ Verdict(ev.id, << <<"C11:point-differs-in-run-" \o ToString(IF bad = <<>> THEN 0 ELSE bad[1]), bad = <<>> >>,
                              <<"C11:no-points", \A r \in SetOf(ev.runs) : r.pts # <<>> >> >>)
         /\ run' = run + 1
         /\ UNCHANGED <<ev, dirs, i, x, at, bad>>
Next == Step_ \/ NextRun \/ Judge
Spec == Init /\ [][Next]_vars
\* the state always is the closed form of the position, never the origin once a point was made
Sane == /\ (at # Zero => \A k \in DOMAIN x : x[k] # Zero)
        /\ (at[2] % 16 = 0 => \A k \in DOMAIN x : x[k] = StateAt(dirs[k], at))
============================================================================
