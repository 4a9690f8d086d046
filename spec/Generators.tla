----------------------------- MODULE Generators ----------------------------
(* Live Sobol generators.  Each has its own dimension and position; what is *)
(* done to one, or elsewhere in the library, concerns no other.             *)
EXTENDS Sobol

VARIABLE gens     \* name -> [dim, at (points generated or skipped, a word), x (state per coordinate)]

ValidDim(d) == d >= 1 /\ d <= 1111
\* dirs(c): direction numbers of coordinate c
StatesAt(dirs(_), dim, n) == [c \in 1..dim |-> StateAt(dirs(c), n)]

GenInit == gens = <<>>
\* base: position of a fresh generator (the hook may move it; otherwise zero), skips: <<>> or a positive request
Create(dirs(_), g, dim, base, skips) ==
  /\ ValidDim(dim)
  /\ LET n == IF skips = <<>> THEN base ELSE Sum2W(base, SkipTo(skips))
     IN gens' = (g :> [dim |-> dim, at |-> n, x |-> StatesAt(dirs, dim, n)]) @@ gens
Exhausted(g) == gens[g].at = LastW
Advance(dirs(_), g) ==
  /\ g \in DOMAIN gens /\ ~Exhausted(g)
  /\ LET k == RightZeroW(gens[g].at) + 1
     IN gens' = [gens EXCEPT ![g].at = IncW(@), ![g].x = [c \in DOMAIN @ |-> XorW(@[c], dirs(c)[k])]]
Destroy(g) == g \in DOMAIN gens /\ gens' = [h \in DOMAIN gens \ {g} |-> gens[h]]
Other == UNCHANGED gens

\* every point produced is strictly inside (0,1): only the origin (no points yet) is zero
Inside == \A g \in DOMAIN gens : gens[g].at # Zero => \A c \in DOMAIN gens[g].x : gens[g].x[c] # Zero
============================================================================
