---------------------------- MODULE MCApportion ----------------------------
(* Largest-remainder integerisation is optimal: all small weights.          *)
EXTENDS Apportion, MCProblems
CONSTANTS Longest, Heaviest, Most
Weights(k) == [1..k -> 0..Heaviest]
Init == /\ \E k \in 1..Longest : \E w \in Weights(k) : \E p \in 0..Most :
              /\ SumSeq(w) > 0
              /\ Q = [w |-> w, s |-> SumSeq(w), pop |-> p]
        /\ AppInit
Spec == Init /\ [][AppNext]_appVars
Done == left = 0
Optimal == Done => \A x \in Comps(Len(f), Q.pop) : Cost(f) <= Cost(x)
\* the exchange condition characterises the optimum
Characterised ==
  left = Q.pop - SumSeq([i \in DOMAIN Q.w |-> (Q.w[i] * Q.pop) \div Q.s]) =>
    LET all == Comps(Len(f), Q.pop)
        best == CHOOSE c \in {Cost(x) : x \in all} : \A x \in all : c <= Cost(x)
    IN \A x \in all : Exchange(x) <=> Cost(x) = best
OneStepEach == \A i \in DOMAIN f : r[i] > -Q.s /\ r[i] < Q.s
Unchanged == (Done /\ \A i \in DOMAIN Q.w : (Q.w[i] * Q.pop) % Q.s = 0) => \A i \in DOMAIN f : f[i] * Q.s = Q.w[i] * Q.pop
\* the exact-arithmetic versions agree with the plain ones
BigAgrees ==
  Done => LET w == [i \in DOMAIN Q.w |-> FromNat(Q.w[i])]
              s == FromNat(Q.s)
              all == Comps(Len(f), Q.pop)
          IN \A x \in all : LET d == Dev(w, s, Q.pop, x)
                            IN /\ Closest(d, s, x, <<>>) <=> Exchange(x)
                               /\ SqSum(d) = FromNat(Cost(x))
\* control: moving a unit is noticed
NeverLeft == left = 0
============================================================================
