----------------------------- MODULE MCValidate ----------------------------
(* Well-formed problems and everything up to a few edits away from them.    *)
(* Every state is printed, to be posed to the implementation.               *)
EXTENDS Validate, TLC, Json
CONSTANTS MaxEdits
VARIABLES q, edits
vars == <<q, edits>>
A(d, v) == [d |-> d, v |-> v]
Ones(d) == A(d, [i \in 1..Size(d) |-> 1])
Bases == {
  [idx |-> <<<<0>>, <<1>>>>, m |-> <<A(<<2>>, <<1, 2>>), A(<<2>>, <<3, 0>>)>>, seed |-> Ones(<<2, 2>>), skips |-> <<0, 0>>],
  [idx |-> <<<<1>>, <<0>>>>, m |-> <<A(<<3>>, <<1, 1, 2>>), A(<<1>>, <<4>>)>>, seed |-> Ones(<<1, 3>>), skips |-> <<0, 3>>],
  [idx |-> <<<<0, 1>>, <<1, 2>>>>, m |-> <<A(<<2, 2>>, <<1, 0, 1, 2>>), A(<<2, 1>>, <<2, 2>>)>>, seed |-> Ones(<<2, 2, 1>>), skips |-> <<0, 0>>],
  [idx |-> <<<<2, 0>>, <<1>>>>, m |-> <<A(<<2, 1>>, <<2, 1>>), A(<<3>>, <<1, 1, 1>>)>>, seed |-> Ones(<<1, 3, 2>>), skips |-> <<0, 1>>],
  [idx |-> <<<<1, 0>>, <<0>>, <<1>>>>, m |-> <<A(<<2, 2>>, <<1, 1, 0, 1>>), A(<<2>>, <<1, 2>>), A(<<2>>, <<2, 1>>)>>, seed |-> Ones(<<2, 2>>), skips |-> <<0, 0>>],
  [idx |-> <<<<0>>, <<1>>, <<2>>>>, m |-> <<A(<<1>>, <<0>>), A(<<2>>, <<0, 0>>), A(<<1>>, <<0>>)>>, seed |-> Ones(<<1, 2, 1>>), skips |-> <<0, 0>>] }
Init == q \in Bases /\ edits = 0
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Vals == -1..3
Shapes(n) == {<<n>>, <<1, n>>, <<n, 1>>} \cup (IF n = 4 THEN {<<2, 2>>} ELSE {})
Edit ==
  \/ \E k \in DOMAIN q.m : q' = [q EXCEPT !.m = Without(@, k)]
  \/ \E k \in DOMAIN q.idx : q' = [q EXCEPT !.idx = Without(@, k)]
  \/ \E k \in DOMAIN q.m : Len(q.m) < 4 /\ q' = [q EXCEPT !.m = Append(@, q.m[k])]
  \/ \E k \in DOMAIN q.idx : Len(q.idx) < 4 /\ q' = [q EXCEPT !.idx = Append(@, q.idx[k])]
  \/ \E k \in DOMAIN q.idx : \E i \in DOMAIN q.idx[k] : \E x \in Vals : q' = [q EXCEPT !.idx[k][i] = x]
  \/ \E k \in DOMAIN q.idx : \E x \in 0..2 : Len(q.idx[k]) < 3 /\ q' = [q EXCEPT !.idx[k] = Append(@, x)]
  \/ \E k \in DOMAIN q.idx : Len(q.idx[k]) > 1 /\ q' = [q EXCEPT !.idx[k] = Tail(@)]
  \/ \E k \in DOMAIN q.m : \E i \in DOMAIN q.m[k].v : \E x \in {-1, 1} : q' = [q EXCEPT !.m[k].v[i] = @ + x]
  \/ \E k \in DOMAIN q.m : \E i, j \in DOMAIN q.m[k].v : i # j /\ q' = [q EXCEPT !.m[k].v[i] = @ - 1, !.m[k].v[j] = @ + 1]
  \/ \E k \in DOMAIN q.m : \E d \in Shapes(Len(q.m[k].v)) : q' = [q EXCEPT !.m[k].d = d]
  \/ \E d \in Shapes(Len(q.seed.v)) : q' = [q EXCEPT !.seed.d = d]
  \/ \E c \in {1, Len(q.seed.v)}, x \in {-1, 0} : q' = [q EXCEPT !.seed.v[c] = x]
  \/ q' = [q EXCEPT !.seed.d = Reverse_(@)]
  \/ \E s \in {<<-1, 65535>>, <<65536, 0>>, <<0, 2>>, <<1, 0>>} : q' = [q EXCEPT !.skips = s]
Next == edits < MaxEdits /\ edits' = edits + 1 /\ Edit
Spec == Init /\ [][Next]_vars
\* FromR and the reversal of the lists keep well-formedness
AsR(p) == [p EXCEPT !.idx = [k \in DOMAIN p.idx |-> [i \in DOMAIN p.idx[k] |-> p.idx[k][i] + 1]]]
Reversible == WellFormed(q) =>
   LET r == FromR(AsR(q)) IN WellFormed(r) /\ Sizes(r) = Reverse_(Sizes(q))
BasesFine == edits = 0 => (WellFormed(q) /\ SeedOK(q) /\ SkipsOK(q) /\ \A fn \in {"ipf", "qis"} : Accepts(fn, q) /\ Certain(fn, q))
Emit == PrintT("CASE " \o ToJson(q))
SomeRefused == \A fn \in {"ipf", "qis", "qisi"} : Accepts(fn, q)     \* control: false
============================================================================
