-------------------------------- MODULE View -------------------------------
(* Array arguments as they lie in memory: a buffer, an offset, and a stride *)
(* for each dimension, all counted in elements.  What a call has to see is  *)
(* only Logical(w).  The copier below is how an implementation may read it: *)
(* an odometer over the coordinates, and a pointer that follows it.         *)
EXTENDS Nd

Address(w, c) == w.off + SumSeq([i \in DOMAIN c |-> c[i] * w.strides[i]])
\* sizes, then the values in row-major order
Logical(w) == <<w.d, [k \in 1..Size(w.d) |-> w.buf[Address(w, Coord(w.d, k)) + 1]]>>
Inside(w) == \A k \in 1..Size(w.d) : Address(w, Coord(w.d, k)) \in 0..(Len(w.buf) - 1)

VARIABLES w, at, ptr, out
viewVars == <<w, at, ptr, out>>
CopyInit == at = [i \in DOMAIN w.d |-> 0] /\ ptr = w.off /\ out = <<>>
Copying == Len(out) < Size(w.d)
\* the last dimension that can still advance; those after it return to 0
Turn == LET S == {i \in DOMAIN w.d : at[i] < w.d[i] - 1} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Back(i) == SumSeq([j \in DOMAIN w.d |-> IF j > i THEN at[j] * w.strides[j] ELSE 0])
CopyStep ==
  /\ Copying
  /\ out' = Append(out, w.buf[ptr + 1])
  /\ IF Turn = 0 THEN UNCHANGED <<at, ptr>>
     ELSE /\ at' = [i \in DOMAIN at |-> IF i = Turn THEN at[i] + 1 ELSE IF i > Turn THEN 0 ELSE at[i]]
          /\ ptr' = ptr + w.strides[Turn] - Back(Turn)
  /\ UNCHANGED w
PointerRight == ptr = Address(w, at)
CopiedRight == out = SubSeq(Logical(w)[2], 1, Len(out))
Copied == ~Copying => <<w.d, out>> = Logical(w)
============================================================================
