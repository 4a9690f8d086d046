-------------------------------- MODULE MCView -----------------------------
EXTENDS View
CONSTANTS Shapes, MaxStride, BufLen
Strides == (-MaxStride)..MaxStride
SmallShapes == {<<1>>, <<3>>, <<2, 2>>, <<1, 3>>, <<3, 2>>}
MoreShapes == SmallShapes \cup {<<4>>, <<2, 3>>, <<2, 2, 2>>, <<2, 1, 3>>}
Buffer == [i \in 1..BufLen |-> i]        \* all different: a wrong address shows
Init == /\ \E d \in Shapes : \E s \in [1..Len(d) -> Strides] : \E o \in 0..(BufLen - 1) :
             w = [d |-> d, strides |-> s, off |-> o, buf |-> Buffer]
        /\ Inside(w) /\ CopyInit
Next == CopyStep
Spec == Init /\ [][Next]_viewVars /\ WF_viewVars(Next)
Terminates == <>~Copying
\* control: memory order is not what matters
Contiguous == ~Copying => \A i \in 1..Len(out) : w.off + i <= Len(w.buf) /\ out[i] = w.buf[w.off + i]
============================================================================
