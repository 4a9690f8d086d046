---------------------------- MODULE MCGenerators ---------------------------
EXTENDS Generators
CONSTANTS Names, MaxDim, MaxSteps
VARIABLES steps, made
vars == <<gens, steps, made>>
D(c) == DirNums[c]
Bases == {<<0, 0>>, <<0, 65534>>, <<32767, 65534>>, <<65535, 65532>>}
Requests == {<<>>, <<0, 1>>, <<0, 2>>, <<0, 3>>, <<0, 5>>}
Init == GenInit /\ steps = 0 /\ made = <<>>
Bounded == steps < MaxSteps /\ steps' = steps + 1
Next ==
  \/ \E g \in Names, d \in 1..MaxDim, b \in Bases, r \in Requests :
        /\ Bounded /\ Create(D, g, d, b, r)
        /\ made' = (g :> <<IF r = <<>> THEN b ELSE Sum2W(b, SkipTo(r)), 0>>) @@ made
        /\ b = <<65535, 65532>> => r \in {<<>>, <<0, 2>>}
  \/ \E g \in DOMAIN gens : Bounded /\ Advance(D, g) /\ made' = [made EXCEPT ![g][2] = @ + 1]
  \/ \E g \in DOMAIN gens : Bounded /\ Destroy(g) /\ made' = [h \in DOMAIN gens \ {g} |-> made[h]]
Spec == Init /\ [][Next]_vars
\* the state depends on the position alone, and the position on that generator's own history alone
ClosedForm == \A g \in DOMAIN gens : gens[g].x = StatesAt(D, gens[g].dim, gens[g].at)
Own == \A g \in DOMAIN gens : gens[g].at = Sum2W(made[g][1], <<0, made[g][2]>>)
Prefix == \A g, h \in DOMAIN gens : gens[g].at = gens[h].at => \A c \in 1..Min2(gens[g].dim, gens[h].dim) : gens[g].x[c] = gens[h].x[c]
NeverExhausted == \A g \in DOMAIN gens : ~Exhausted(g)     \* control: false
============================================================================
