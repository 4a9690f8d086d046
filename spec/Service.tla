------------------------------- MODULE Service -----------------------------
(* The life of a process using the library: it is idle or inside one call,  *)
(* and a call is a computation with a variant: every step decreases         *)
(* <<part, left>> (lexicographically), where part counts the loops still to *)
(* come and left the rounds of the present one.  Bounds come from the call: *)
(* points skipped, population, iterations allowed, cells.  There is no      *)
(* transition that leaves the process dead, or busy for ever.               *)
EXTENDS Integers, Sequences, TLC

VARIABLES phase,    \* "idle" or "busy"
          loops,    \* bounds of the loops to come, in order
          left,     \* rounds left in the present loop
          outcome   \* of the last call: "none", "ok", "err"
svcVars == <<phase, loops, left, outcome>>

SvcInit == phase = "idle" /\ loops = <<>> /\ left = 0 /\ outcome = "none"
Begin(bounds) == phase = "idle" /\ phase' = "busy" /\ loops' = bounds /\ left' = 0 /\ outcome' = "none"
\* arguments are found to be unsuitable, or the computation cannot be completed
Refuse == phase = "busy" /\ phase' = "idle" /\ loops' = <<>> /\ left' = 0 /\ outcome' = "err"
Enter == phase = "busy" /\ left = 0 /\ loops # <<>> /\ left' = Head(loops) /\ loops' = Tail(loops) /\ UNCHANGED <<phase, outcome>>
Round == phase = "busy" /\ left > 0 /\ left' = left - 1 /\ UNCHANGED <<phase, loops, outcome>>
Leave == phase = "busy" /\ left > 0 /\ left' = 0 /\ UNCHANGED <<phase, loops, outcome>>       \* a loop ends early
Return == phase = "busy" /\ left = 0 /\ loops = <<>> /\ phase' = "idle" /\ outcome' = "ok" /\ UNCHANGED <<loops, left>>
Work == Refuse \/ Enter \/ Round \/ Leave \/ Return

\* what is seen of a whole call from outside
Ends(out) == /\ phase = "idle" /\ out \in {"ok", "err"}
             /\ phase' = "idle" /\ outcome' = out /\ UNCHANGED <<loops, left>>
============================================================================
