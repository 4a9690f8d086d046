------------------------------- MODULE Flatten -----------------------------
(* Listing individuals: cells are visited in row-major order and each is    *)
(* written out as many times as it is occupied, one column per dimension.   *)
EXTENDS Nd

VARIABLES A, base,    \* the counts; number of the first category (0 in Python, 1 in R)
          c, done,    \* cell being written, copies of it already written
          cols        \* one sequence per dimension
flatVars == <<A, base, c, done, cols>>

\* a sparse array lists, in order, only some of its cells (A.cell) with their counts (A.v); the others are empty
Cell(k) == IF "cell" \in DOMAIN A THEN A.cell[k] ELSE k
WellFormed == "cell" \in DOMAIN A => /\ Len(A.cell) = Len(A.v)
                                    /\ \A k \in DOMAIN A.cell : A.cell[k] \in 1..Size(A.d) /\ (k > 1 => A.cell[k] > A.cell[k - 1])

FlatInit == c = 1 /\ done = 0 /\ cols = [i \in DOMAIN A.d |-> <<>>]
Occupied == c <= Len(A.v) /\ done < A.v[c]
\* m copies at once
Emit(m) ==
  /\ Occupied /\ m >= 1 /\ done + m <= A.v[c]
  /\ LET at == Coord(A.d, Cell(c))
     IN cols' = [i \in DOMAIN cols |-> cols[i] \o [j \in 1..m |-> at[i] + base]]
  /\ done' = done + m
  /\ UNCHANGED <<A, base, c>>
NextCell == /\ c <= Len(A.v) /\ done >= A.v[c]
            /\ c' = c + 1 /\ done' = 0
            /\ UNCHANGED <<A, base, cols>>
Finished == c > Len(A.v)
\* no individual lost, none invented
Rows(s) == IF s = <<>> THEN 0 ELSE Len(s[1])
Same == \A i \in DOMAIN cols : Len(cols[i]) = Rows(cols)
Occurrences(k) == Cardinality({j \in 1..Rows(cols) : \A i \in DOMAIN cols : cols[i][j] = Coord(A.d, Cell(k))[i] + base})
Exact == Same /\ \A k \in DOMAIN A.v : Occurrences(k) = (IF k < c THEN A.v[k] ELSE IF k = c THEN done ELSE 0)
\* lexicographic order
LexLe(j) == \/ \A i \in DOMAIN cols : cols[i][j] = cols[i][j + 1]
            \/ \E i \in DOMAIN cols : cols[i][j] < cols[i][j + 1] /\ \A h \in 1..(i - 1) : cols[h][j] = cols[h][j + 1]
Ordered == \A j \in 1..(Rows(cols) - 1) : LexLe(j)
\* every entry is a category of its dimension
InRange == \A i \in DOMAIN cols : \A j \in DOMAIN cols[i] : cols[i][j] >= base /\ cols[i][j] < A.d[i] + base
============================================================================
