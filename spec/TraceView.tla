------------------------------ MODULE TraceView ----------------------------
(* Calls made with the same logical arrays laid out in different ways, one  *)
(* after the other (C16).  A session in which the contents of an argument   *)
(* are its logical array: the results have to be a function of those.       *)
EXTENDS Session, View, Trace
VARIABLES ev, i, bad
vars == <<args, memo, kept, w, at, ptr, out, ev, i, bad>>
none == [d |-> <<1>>, strides |-> <<0>>, off |-> 0, buf |-> <<0>>]
\* ev.vars: the variants; each has views (the arguments that matter, in order) and the digest of the result
Init == /\ \E j \in DOMAIN Events : ev = Events[j]
        /\ SesInit(<<>>) /\ w = none /\ CopyInit /\ i = 1 /\ bad = <<>>
V == ev.vars[i]
Live == i <= Len(ev.vars)
Name(j) == ToString(j)
Contents(v) == [j \in DOMAIN v.views |-> Logical(v.views[j])]
DoCall ==
  /\ Live
  /\ \A j \in DOMAIN V.views : Inside(V.views[j])
  /\ LET x == Contents(V)
         k == <<ev.fn, x>>
     IN /\ args' = FoldLeft(LAMBDA acc, j : (Name(j) :> x[j]) @@ acc, <<>>, [q \in 1..Len(x) |-> q])
        /\ memo' = IF k \in DOMAIN memo THEN memo ELSE (k :> V.res) @@ memo
        /\ bad' = IF k \in DOMAIN memo /\ memo[k] # V.res THEN Append(bad, "C16:layout-matters-in-" \o ev.fn \o "-variant-" \o ToString(i)) ELSE bad
  /\ i' = i + 1 /\ UNCHANGED <<kept, w, at, ptr, out, ev>>
Judge == /\ i = Len(ev.vars) + 1
         /\ Verdict(ev.id, IF bad = <<>> THEN <<>> ELSE << <<bad[1], FALSE>> >>)
         /\ i' = i + 1 /\ UNCHANGED <<args, memo, kept, w, at, ptr, out, ev, bad>>
Next == DoCall \/ Judge
Spec == Init /\ [][Next]_vars
\* the variants of a record differ in nothing but layout
Sane == Cardinality(DOMAIN memo) <= 1
============================================================================
