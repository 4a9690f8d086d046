----------------------------- MODULE MCFrontends ---------------------------
(* A table described to R by its marginals: the question asked in Python is *)
(* about the transposed table, and the answer comes back untransposed.      *)
EXTENDS Frontends
CONSTANTS Shapes, MaxCell
SmallShapes == {<<2>>, <<1, 3>>, <<2, 3>>, <<3, 2>>, <<2, 2>>}
MoreShapes == {<<2, 1, 3>>, <<2, 2, 2>>, <<2, 3>>}
VARIABLES T, idx, stage
vars == <<T, idx, stage>>
Lists(nd) == {s \in UNION {[1..n -> 1..nd] : n \in 1..nd} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
Init == \E d \in Shapes : /\ \E v \in [1..Size(d) -> 0..MaxCell] : T = [d |-> d, v |-> v]
                          /\ idx = <<>> /\ stage = 0
AddMarginal == stage < 2 /\ stage' = stage + 1 /\ \E l \in Lists(Len(T.d)) : idx' = Append(idx, l)
               /\ UNCHANGED T
Next == AddMarginal
Spec == Init /\ [][Next]_vars
AnswersAgree ==
  LET q == AskPython(Len(T.d), idx, Described(T, idx, 1))
  IN q.m = Described(Transposed(T), q.idx, 0)
Involution == FromPython(Transposed(T)) = T
AsksTheSame == UNION {SetOf(idx[k]) : k \in DOMAIN idx} = 1..Len(T.d) =>
                  AskPython(Len(T.d), idx, Described(T, idx, 1)) = FromR([idx |-> idx, m |-> Described(T, idx, 1)])
\* control: transposition matters
Untransposed == LET q == AskPython(Len(T.d), idx, Described(T, idx, 1)) IN q.m = Described(T, q.idx, 0)
============================================================================
