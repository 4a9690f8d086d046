------------------------------- MODULE Threads -----------------------------
(* Several threads of one process using the library at once (C20).  Every   *)
(* operation takes effect at one instant between its invocation and its     *)
(* return: a step of a generator hands the next point to that thread alone; *)
(* any other call touches nothing shared.                                   *)
EXTENDS Generators

VARIABLES progs,   \* thread -> operations: [f |-> "next", g], [f |-> "new", g, dim, skips] or [f |-> "call", ...]
          done     \* thread -> how many of them have taken effect
thrVars == <<gens, progs, done>>

ThrInit(ps) == progs = ps /\ done = [t \in DOMAIN ps |-> 0]
Pending(t) == done[t] < Len(progs[t])
Now(t) == progs[t][done[t] + 1]
Effect(dirs(_), t) ==
  /\ Pending(t)
  /\ LET o == Now(t)
     IN \/ o.f = "next" /\ o.g \in DOMAIN gens /\ (IF Exhausted(o.g) THEN UNCHANGED gens ELSE Advance(dirs, o.g))
        \/ o.f = "new" /\ Create(dirs, o.g, o.dim, Zero, o.skips)
        \/ o.f = "call" /\ UNCHANGED gens
  /\ done' = [done EXCEPT ![t] = @ + 1]
  /\ UNCHANGED progs
AllDone == \A t \in DOMAIN progs : ~Pending(t)
============================================================================
