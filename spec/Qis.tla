-------------------------------- MODULE Qis --------------------------------
(* Quasirandom integer sampling, at the grain of the algorithm: one point   *)
(* per individual, one dimension assigned at a time, then one unit taken    *)
(* from every marginal.                                                     *)
EXTENDS Alloc

VARIABLES pc,        \* "draw", "sample", "done", "failed"
          x,         \* state of the sequence: the current point
          coord,     \* coordinates assigned to the current individual (-1: none yet)
          at,        \* <<marginal, position>> of the next dimension to look at
          ok         \* no residual has become negative

qisVars == <<Pr, res, tab, n, pc, x, coord, at, ok>>

\* weights of the values of dimension number pos of marginal k, given the dimensions of it already assigned
CondWeights(k, pos) ==
  LET ds == Pr.idx[k]
      fixed == {i \in DOMAIN ds : coord[ds[i] + 1] >= 0}
      cs == Pr.mc[k]
  IN FoldLeftDomain(LAMBDA acc, c : IF res[k][c] # 0 /\ (\A i \in fixed : cs[c][i] = coord[ds[i] + 1])
                                    THEN [acc EXCEPT ![cs[c][pos] + 1] = @ + res[k][c]] ELSE acc,
                    [v \in 1..Pr.md[k][pos] |-> 0], res[k])

\* first unassigned dimension at or after <<k, pos>>, marginals in order, positions from last to first;
\* <<0, 0>> when every marginal has been covered
RECURSIVE NextAt(_, _, _)
NextAt(cd, k, pos) ==
  IF k > Len(Pr.idx) THEN <<0, 0>>
  ELSE IF pos = 0 THEN (IF k = Len(Pr.idx) THEN <<0, 0>> ELSE NextAt(cd, k + 1, Len(Pr.idx[k + 1])))
  ELSE IF cd[Pr.idx[k][pos] + 1] < 0 THEN <<k, pos>>
  ELSE NextAt(cd, k, pos - 1)

QisInit(x0) ==
  /\ AllocInit
  /\ pc = "draw" /\ ok = TRUE
  /\ x = x0
  /\ coord = <<>> /\ at = <<0, 0>>

\* take the next point of the sequence
Draw(nextPoint(_)) ==
  /\ pc = "draw" /\ n < Pr.pop
  /\ x' = nextPoint(x)
  /\ coord' = [i \in 1..Len(Pr.d) |-> -1]
  /\ at' = NextAt(coord', 1, Len(Pr.idx[1]))
  /\ pc' = "sample"
  /\ UNCHANGED <<Pr, res, tab, n, ok>>

\* assign one dimension; choices(w, dim) are the values the sampler may choose given weights w
Assign(choices(_, _)) ==
  /\ pc = "sample" /\ at # <<0, 0>>
  /\ LET dim == Pr.idx[at[1]][at[2]]
         w == CondWeights(at[1], at[2])
         vs == choices(w, dim)
     IN IF vs = {} THEN pc' = "failed" /\ UNCHANGED <<coord, at>>
        ELSE \E v \in vs : /\ coord' = [coord EXCEPT ![dim + 1] = v - 1]
                           /\ at' = NextAt(coord', at[1], at[2])
                           /\ pc' = pc
  /\ UNCHANGED <<Pr, res, tab, n, x, ok>>

\* the individual is complete: count it and take it out of every marginal
Commit ==
  /\ pc = "sample" /\ at = <<0, 0>>
  /\ Place(CellOf(Pr.d, coord), 1)
  /\ ok' = (ok /\ \A j \in DOMAIN res' : res'[j][Pr.proj[j][CellOf(Pr.d, coord)]] >= 0)
  /\ pc' = "draw"
  /\ UNCHANGED <<x, coord, at>>

Finish ==
  /\ pc = "draw" /\ n = Pr.pop
  /\ pc' = "done"
  /\ UNCHANGED <<Pr, res, tab, n, x, coord, at, ok>>

(***************************************************************************)
(* The inverse cumulative distribution: the first value v with              *)
(* word/2^32 * total(w) < w[1] + .. + w[v]                                  *)
(***************************************************************************)
\* floor(word * s / 2^32), word = <<hi, lo>> in 16-bit halves
MulShift32(word, s) ==
  IF s < 32768 /\ s > -32768
  THEN (word[1] * s + ((word[2] * s) \div 65536)) \div 65536
  ELSE \* byte by byte, for |s| < 2^22
       LET b == <<word[2] % 256, word[2] \div 256, word[1] % 256, word[1] \div 256>>
       IN FoldLeft(LAMBDA acc, y : (y * s + acc) \div 256, 0, b)

InverseCdf(w, word) ==
  LET q == MulShift32(word, SumSeq(w))
      r == FoldLeft(LAMBDA acc, i :
               LET run == acc[1] + w[i]
               IN <<run, IF acc[2] = 0 /\ q < run THEN i ELSE acc[2]>>, <<0, 0>>, [i \in DOMAIN w |-> i])
  IN IF r[2] = 0 THEN {} ELSE {r[2]}

\* any value that is possible at all
Possible(w, dim) == {v \in DOMAIN w : w[v] > 0}

(***************************************************************************)
(* Properties.                                                              *)
(***************************************************************************)
OkCriterion == ok <=> NonNegRes
\* with decomposable marginals nothing can go wrong (C02)
Guaranteed == Pr.decomposable => /\ pc # "failed"
                                 /\ ok
                                 /\ pc = "done" => Matched
============================================================================
