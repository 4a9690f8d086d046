------------------------------ MODULE TraceGen -----------------------------
(* Histories recorded from a process that creates, advances and destroys    *)
(* generators and calls the rest of the library in between (C12).           *)
EXTENDS Generators, Trace

VARIABLES ev, i, kept, bad,     \* record; next operation; arrays held on to; what went wrong
          dirs                  \* direction numbers of the coordinates needed (never changes)
vars == <<gens, ev, i, kept, bad, dirs>>
D(c) == dirs[c]
Needed == FoldLeft(LAMBDA acc, o : IF o.f = "new" /\ ValidDim(o.dim) THEN Max2(acc, o.dim) ELSE acc, 1, ev.ops)
Init == /\ GenInit /\ i = 1 /\ kept = <<>> /\ bad = <<>>
        /\ \E j \in DOMAIN Events : ev = Events[j]
        /\ dirs = [c \in 1..Needed |-> IF c = 1 THEN FirstDirs ELSE Dirs(JoeKuo[c - 1])]
Op == ev.ops[i]
Live == i <= Len(ev.ops)
Fail(c, p) == IF p THEN bad ELSE Append(bad, c)
Done(b) == /\ i' = i + 1 /\ bad' = b /\ UNCHANGED <<ev, dirs>>
Neg(w) == w[1] < 0 \/ w[1] >= H      \* out of range for 32 bits

GenNew ==
  /\ Live /\ Op.f = "new"
  /\ IF ~ValidDim(Op.dim) \/ (Op.skips # <<>> /\ Neg(Op.skips))
     THEN /\ Done(Fail("C12:invalid-generator-accepted", Op.out = "err"))
          /\ UNCHANGED <<gens, kept>>
     ELSE /\ Done(Fail("C12:generator-refused", Op.out = "ok"))
          /\ Create(D, Op.g, Op.dim, Op.seek, IF Op.skips = Zero THEN <<>> ELSE Op.skips)
          /\ UNCHANGED kept
GenNext ==
  /\ Live /\ Op.f = "next"
  /\ IF Exhausted(Op.g)
     THEN /\ Done(Fail("C12:not-exhausted", Op.out = "stop")) /\ UNCHANGED <<gens, kept>>
     ELSE /\ Advance(D, Op.g)
          /\ Done(Fail("C12:wrong-point", Op.out = "ok" /\ Op.pt = gens'[Op.g].x))
          /\ kept' = IF Has(Op, "keep") THEN (Op.keep :> gens'[Op.g].x) @@ kept ELSE kept
GenDel == /\ Live /\ Op.f = "del" /\ Destroy(Op.g) /\ Done(bad) /\ UNCHANGED kept
\* an array obtained earlier
Reread == /\ Live /\ Op.f = "reread"
          /\ Done(Fail("C12:earlier-array-changed", Op.out = "ok" /\ Op.pt = kept[Op.name]))
          /\ UNCHANGED <<gens, kept>>
\* overwritten by the caller
Scribble == /\ Live /\ Op.f = "scribble" /\ Done(bad) /\ kept' = [k \in DOMAIN kept \ {Op.name} |-> kept[k]] /\ UNCHANGED gens
Iter == Live /\ Op.f = "iter" /\ Done(Fail("C12:iter", Op.same)) /\ UNCHANGED <<gens, kept>>
Elsewhere == Live /\ Op.f = "other" /\ Other /\ Done(bad) /\ UNCHANGED kept
Judge == /\ i = Len(ev.ops) + 1
         /\ Verdict(ev.id, IF bad = <<>> THEN <<>> ELSE [k \in 1..1 |-> <<bad[1], FALSE>>])
         /\ i' = i + 1 /\ UNCHANGED <<gens, ev, kept, bad, dirs>>
Next == GenNew \/ GenNext \/ GenDel \/ Reread \/ Scribble \/ Iter \/ Elsewhere \/ Judge
Spec == Init /\ [][Next]_vars
\* the generator just used, in one of its coordinates, against the closed form (MCGenerators checks them all)
Sane == Live /\ "g" \in DOMAIN Op /\ Op.g \in DOMAIN gens =>
          LET G == gens[Op.g]
              k == 1 + (i % G.dim)
          IN G.x[k] = StateAt(D(k), G.at) /\ (G.at # Zero => G.x[k] # Zero)
============================================================================
