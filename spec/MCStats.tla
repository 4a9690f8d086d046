------------------------------- MODULE MCStats -----------------------------
(* The machine in Stats against published critical values and the laws of   *)
(* the distribution.  Critical: <<dof, x * 1000, tail * 10^4>>.              *)
EXTENDS Stats, TLC
CONSTANTS MaxX, MaxDof
VARIABLE was       \* the tail, once worked out
vars == <<x, dof, i, t, upper, e, te, total, was>>
Critical == << <<1, 2706, 1000>>, <<1, 3841, 500>>, <<1, 6635, 100>>, <<2, 4605, 1000>>, <<2, 5991, 500>>, <<2, 9210, 100>>,
               <<3, 7815, 500>>, <<3, 11345, 100>>, <<4, 9488, 500>>, <<5, 11070, 500>>, <<5, 1145, 9500>>, <<6, 12592, 500>>, <<7, 14067, 500>>,
               <<8, 15507, 500>>, <<9, 16919, 500>>, <<10, 18307, 500>>, <<10, 23209, 100>>, <<10, 3940, 9500>>, <<15, 24996, 500>>,
               <<20, 31410, 500>>, <<25, 37652, 500>>, <<30, 43773, 500>>, <<40, 55758, 500>>, <<50, 67505, 500>>, <<60, 79082, 500>>,
               <<100, 124342, 500>>, <<100, 77929, 9500>> >>
Milli(n) == Div(Mul(FromNat(n), SOne), FromNat(1000))
Init == /\ \/ \E c \in DOMAIN Critical : dof = Critical[c][1] /\ x = Milli(Critical[c][2])
           \/ dof \in 1..MaxDof /\ \E n \in 0..MaxX : x = Milli(250 * n)
        /\ StatInit /\ was = <<>>
Done == Summed /\ was = <<>>
Finish == Done /\ was' = <<Upper>> /\ UNCHANGED statVars
Next == ((FirstTerm \/ AddTerm) /\ UNCHANGED was) \/ Finish
Spec == Init /\ [][Next]_vars
NearBy(a, b, places) == Le(AbsDiff(a, b), Pow10(24 - places))
\* published tables give x to 3 decimals, so the tail to about 4
Published == was # <<>> => \A c \in DOMAIN Critical :
               (dof = Critical[c][1] /\ x = Milli(Critical[c][2])) => Le(AbsDiff(was[1], Div(Mul(FromNat(Critical[c][3]), SOne), FromNat(10000))), Div(SOne, FromNat(8000)))
IsProbability == was # <<>> => Cmp(was[1], SOne) <= 0 /\ (x = <<>> => was[1] = SOne)
\* lower and upper parts of the even case are complements: the terms below dof sum to the tail
Complement == (was # <<>> /\ Parity = 0) => NearBy(SDiv(Minus(total, upper), total), was[1], 18)
Strict == (was # <<>> /\ x # <<>>) => Cmp(was[1], SOne) < 0
Control == was # <<>> => Cmp(was[1], Half(SOne)) >= 0
============================================================================
