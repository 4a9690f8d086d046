---------------------------- MODULE TraceThreads ---------------------------
(* Recorded runs of several threads (C20).  inv and res of an operation     *)
(* order it against those of other threads.  Points of a sequence differ,   *)
(* so an operation that may take effect now may do so without taking the    *)
(* chance from another: the first that may goes first.                      *)
EXTENDS Threads, Trace
VARIABLES ev, bad, dirs, over
vars == <<thrVars, ev, bad, dirs, over>>
D(c) == dirs[c]
Init == /\ \E j \in DOMAIN Events : ev = Events[j]
        /\ dirs = [c \in DOMAIN ev.coords |-> IF ev.coords[c] = 1 THEN FirstDirs ELSE Dirs(JoeKuo[ev.coords[c] - 1])]
        /\ gens = FoldLeft(LAMBDA acc, q : LET n == IF q.skips = <<>> THEN Zero ELSE SkipTo(q.skips)
                                           IN (q.g :> [dim |-> q.dim, at |-> n, x |-> StatesAt(D, q.dim, n)]) @@ acc, <<>>, ev.gens)
        /\ ThrInit(ev.threads)
        /\ bad = <<>> /\ over = FALSE
\* all that had returned when it was invoked has taken effect
Invoked(o) == \A u \in DOMAIN progs : Pending(u) => Now(u).res > o.inv
Following(g) == [c \in DOMAIN gens[g].x |-> XorW(gens[g].x[c], dirs[c][RightZeroW(gens[g].at) + 1])]
May(t) == /\ Pending(t)
          /\ LET o == Now(t)
             IN /\ Invoked(o)
                /\ o.f = "next" => o.g \in DOMAIN gens /\ (IF Exhausted(o.g) THEN o.out = "stop" ELSE o.out = "ok" /\ o.pt = Following(o.g))
Able == {t \in DOMAIN progs : May(t)}
Take == /\ ~over /\ Able # {}
        /\ LET t == CHOOSE t \in Able : \A u \in Able : t <= u
           IN /\ Effect(D, t)
              /\ bad' = IF Now(t).f # "call" THEN bad
                        ELSE IF Now(t).res0 = ev.alone[Now(t).key] THEN bad ELSE Append(bad, "C20:call-differs-from-the-call-alone")
        /\ UNCHANGED <<ev, dirs, over>>
Judge == /\ ~over /\ Able = {}
         /\ Verdict(ev.id, IF bad # <<>> THEN << <<bad[1], FALSE>> >> ELSE << <<"C20:no-order-of-the-steps-explains-the-points", AllDone>> >>)
         /\ over' = TRUE /\ UNCHANGED <<thrVars, ev, bad, dirs>>
Next == Take \/ Judge
Spec == Init /\ [][Next]_vars
Sane == \A g \in DOMAIN gens : gens[g].at # Zero => \A c \in DOMAIN gens[g].x : gens[g].x[c] # Zero
============================================================================
