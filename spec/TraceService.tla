---------------------------- MODULE TraceService ---------------------------
(* Recorded sessions of hostile calls (C19).  A crash or a hang is not a    *)
(* transition of Service.  In between, known calls ("probe") have to answer *)
(* what they answer in a fresh process, and an alike hostile call must end  *)
(* alike: the process is as it was.                                         *)
EXTENDS Service, Trace
VARIABLES ev, i, bad, seen
vars == <<phase, loops, left, outcome, ev, i, bad, seen>>
Init == /\ \E j \in DOMAIN Events : ev = Events[j]
        /\ SvcInit /\ i = 1 /\ bad = ""
        /\ seen = FoldLeft(LAMBDA acc, s : (s.key :> s.res) @@ acc, <<>>, ev.solo)
Op == ev.ops[i]
Live == i <= Len(ev.ops) /\ bad = ""
Call == /\ Live /\ Op.f = "call" /\ Ends(Op.out)
        /\ i' = i + 1 /\ UNCHANGED <<ev, bad, seen>>
Probe == /\ Live /\ Op.f = "probe" /\ Ends(Op.out)
         /\ i' = i + 1 /\ UNCHANGED <<ev, seen>>
         /\ bad' = IF Op.key \in DOMAIN seen /\ seen[Op.key] = Op.res THEN "" ELSE "C19:not-as-usable-as-before-at-" \o ToString(i)
Stuck == Live /\ Op.out \notin {"ok", "err"}
Judge == /\ i <= Len(ev.ops) + 1
         /\ \/ i = Len(ev.ops) + 1 \/ bad # "" \/ Stuck
         /\ Verdict(ev.id, IF bad # "" THEN << <<bad, FALSE>> >>
                           ELSE IF i <= Len(ev.ops) THEN << <<"C19:" \o Op.fn \o "-" \o Op.out \o "-at-" \o ToString(i), FALSE>> >> ELSE <<>>)
         /\ i' = Len(ev.ops) + 2 /\ UNCHANGED <<phase, loops, left, outcome, ev, bad, seen>>
Next == Call \/ Probe \/ Judge
Spec == Init /\ [][Next]_vars
Sane == phase = "idle"
============================================================================
