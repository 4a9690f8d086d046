-------------------------------- MODULE Nd --------------------------------
(* Arrays of any rank.  An array is a record [d, v]: the sizes, and the     *)
(* values in row-major order.  Coordinates and dimension numbers are        *)
(* 0-based, as in the API; TLA+ sequences are 1-based.                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

SumSeq(s)  == FoldLeft(LAMBDA a, b : a + b, 0, s)
ProdSeq(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
MaxSeq(s)  == FoldLeft(LAMBDA a, b : IF b > a THEN b ELSE a, s[1], s)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SetOf(s)   == {s[i] : i \in DOMAIN s}

Size(d)      == ProdSeq(d)
Stride(d, i) == ProdSeq(SubSeq(d, i + 1, Len(d)))

\* coordinates of the k-th cell, and back
Coord(d, k) == [i \in 1..Len(d) |-> ((k - 1) \div Stride(d, i)) % d[i]]
CellOf(d, c) == 1 + SumSeq([i \in 1..Len(d) |-> c[i] * Stride(d, i)])
Coords(d)   == [k \in 1..Size(d) |-> Coord(d, k)]

\* the coordinates in the dimensions listed in ds
Sub(c, ds) == [i \in 1..Len(ds) |-> c[ds[i] + 1]]
SubDims(d, ds) == [i \in 1..Len(ds) |-> d[ds[i] + 1]]

\* for each cell of an array of sizes d, the cell of its projection on ds
Proj(d, ds) ==
  LET sd == SubDims(d, ds)
      st == [i \in 1..Len(ds) |-> Stride(sd, i)]
      cs == [i \in 1..Len(ds) |-> Stride(d, ds[i] + 1)]
  IN [k \in 1..Size(d) |->
        1 + SumSeq([i \in 1..Len(ds) |-> (((k - 1) \div cs[i]) % sd[i]) * st[i]])]

\* sums over all dimensions not in ds
Reduce(A, ds) ==
  LET sd == SubDims(A.d, ds)
      pr == Proj(A.d, ds)
  IN [d |-> sd,
      v |-> FoldLeftDomain(LAMBDA acc, k : [acc EXCEPT ![pr[k]] = @ + A.v[k]],
                           [j \in 1..Size(sd) |-> 0], A.v)]

\* the array with its dimensions in reverse order
Reverse_(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Transposed(A) ==
  LET rd == Reverse_(A.d)
  IN [d |-> rd, v |-> [k \in 1..Len(A.v) |-> A.v[CellOf(A.d, Reverse_(Coord(rd, k)))]]]

IsArray(A) == /\ Len(A.d) >= 1
              /\ \A i \in DOMAIN A.d : A.d[i] >= 1
              /\ Len(A.v) = Size(A.d)
============================================================================
