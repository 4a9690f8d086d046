---------------------------- MODULE TraceSession ---------------------------
(* Recorded sessions (C15).  Contents and results are digests.  ev.solo:    *)
(* results of the same calls made alone in fresh processes.                 *)
EXTENDS Session, Trace
VARIABLES ev, i, bad
vars == <<args, memo, kept, ev, i, bad>>
Init == /\ \E j \in DOMAIN Events : ev = Events[j]
        /\ SesInit(FoldLeft(LAMBDA acc, s : (<<s.fn, s.args>> :> s.res) @@ acc, <<>>, ev.solo))
        /\ i = 1 /\ bad = <<>>
Op == ev.ops[i]
Live == i <= Len(ev.ops)
Step(b) == i' = i + 1 /\ bad' = b /\ UNCHANGED ev
Fail(c, p) == IF p THEN bad ELSE Append(bad, c \o "-at-" \o ToString(i))
DoBind == Live /\ Op.f = "bind" /\ Bind(Op.name, Op.val) /\ Step(bad)
DoChange == Live /\ Op.f = "change" /\ Change(Op.name, Op.val) /\ Step(bad)
DoCall == Live /\ Op.f = "call" /\ Call(Op.fn, Op.args, Op.res, Op.keep)
          /\ Step(Fail("C15:result-of-" \o Op.fn \o "-depends-on-more-than-its-arguments", Expected(Op.fn, Op.args, Op.res)))
DoLook == Live /\ Op.f = "look" /\ UNCHANGED sesVars /\ Step(Fail("C15:argument-modified", Op.val = args[Op.name]))
DoReread == Live /\ Op.f = "reread" /\ UNCHANGED sesVars /\ Step(Fail("C15:earlier-result-changed", Op.val = kept[Op.name]))
DoOver == Live /\ Op.f = "overwrite" /\ Overwrite(Op.name) /\ Step(bad)
DoOther == Live /\ Op.f = "other" /\ UNCHANGED sesVars /\ Step(bad)
Judge == /\ i = Len(ev.ops) + 1
         /\ Verdict(ev.id, IF bad = <<>> THEN <<>> ELSE << <<bad[1], FALSE>> >>)
         /\ i' = i + 1 /\ UNCHANGED <<args, memo, kept, ev, bad>>
Next == DoBind \/ DoChange \/ DoCall \/ DoLook \/ DoReread \/ DoOver \/ DoOther \/ Judge
Spec == Init /\ [][Next]_vars
Sane == i <= Len(ev.ops) + 2
============================================================================
