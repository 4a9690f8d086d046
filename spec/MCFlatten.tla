------------------------------ MODULE MCFlatten ----------------------------
EXTENDS Flatten
CONSTANTS Shapes, MaxCount
SmallShapes == {<<1>>, <<3>>, <<2, 2>>, <<1, 3>>, <<3, 1>>}
MoreShapes == {<<1>>, <<4>>, <<2, 3>>, <<3, 2>>, <<2, 1, 2>>, <<1, 2, 2>>}
Init == /\ \E d \in Shapes : \E v \in [1..Size(d) -> 0..MaxCount] : A \in {[d |-> d, v |-> v], [d |-> d, v |-> SelectSeq(v, LAMBDA n : n # 0), cell |-> SelectSeq([k \in DOMAIN v |-> k], LAMBDA k : v[k] # 0)]}
        /\ base \in {0, 1} /\ FlatInit
Next == (\E m \in 1..MaxCount : Emit(m)) \/ NextCell
Spec == Init /\ [][Next]_flatVars /\ WF_flatVars(Next)
Complete == Finished => Rows(cols) = SumSeq(A.v)
Terminates == <>Finished
============================================================================
