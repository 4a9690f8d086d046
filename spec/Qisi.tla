-------------------------------- MODULE Qisi -------------------------------
(* Quasirandom sampling from a fitted distribution: one point per           *)
(* individual selects a cell of the fitted array (last dimension first),    *)
(* which loses one unit; when that makes it negative the array is fitted    *)
(* again, from the seed, to what remains of the marginals.                  *)
EXTENDS Alloc, IpfOps

VARIABLES pc,        \* "fit", "draw", "sample", "done", "failed", "unfit"
          x,         \* state of the sequence
          coord,     \* coordinates chosen for the current individual (-1: not yet), last dimension first
          fit,       \* the fitted array less the individuals placed since (fixed-point magnitudes)
          slack      \* TRUE if a cell that might just have become negative was taken as zero

qisiVars == <<Pr, res, tab, n, pc, x, coord, fit, slack>>
\* Pr.seed: magnitudes of the seed, any units; Pr.coords: coordinates of every cell

Unit == One
\* closer than this, the order of two fixed-point values is not relied upon (10^-7)
FitTol == <<0, 10>>
MaxSweeps == 80

FxRes == [j \in DOMAIN res |-> [i \in DOMAIN res[j] |-> IF res[j][i] < 0 THEN <<>> ELSE FxInt(res[j][i])]]

QisiInit(x0) ==
  /\ AllocInit
  /\ pc = "fit" /\ x = x0 /\ coord = <<>> /\ fit = <<>> /\ slack = FALSE

\* fit to the residual marginals, starting from the seed
Refit ==
  /\ pc = "fit"
  /\ LET r == SolveFrom(Pr.proj, FxRes, Pr.seed, <<10>>, MaxSweeps)      \* to 10^-11
     IN /\ fit' = r[1]
        /\ pc' = IF r[2] THEN "draw" ELSE "unfit"
  /\ UNCHANGED <<Pr, res, tab, n, x, coord, slack>>

Draw(nextPoint(_)) ==
  /\ pc = "draw" /\ n < Pr.pop
  /\ x' = nextPoint(x)
  /\ coord' = [i \in 1..Len(Pr.d) |-> -1]
  /\ pc' = "sample"
  /\ UNCHANGED <<Pr, res, tab, n, fit, slack>>

\* the dimension to choose next (0-based): the last one not chosen yet
NextDim == (CHOOSE i \in DOMAIN coord : coord[i] < 0 /\ \A j \in DOMAIN coord : j > i => coord[j] >= 0) - 1
Complete_ == \A i \in DOMAIN coord : coord[i] >= 0
\* total of the fitted array for each value of dimension dim, given the later coordinates
FitWeights(dim) ==
  FoldLeftDomain(LAMBDA acc, c :
       LET co == Pr.coords[c]
       IN IF fit[c] # <<>> /\ \A i \in DOMAIN co : coord[i] >= 0 => co[i] = coord[i]
          THEN [acc EXCEPT ![co[dim + 1] + 1] = Add(@, fit[c])] ELSE acc,
     [v \in 1..Pr.d[dim + 1] |-> <<>>], fit)

Assign(choices(_, _)) ==
  /\ pc = "sample" /\ ~Complete_
  /\ LET dim == NextDim
         vs == choices(FitWeights(dim), dim)
     IN IF vs = {} THEN pc' = "failed" /\ UNCHANGED coord
        ELSE \E v \in vs : coord' = [coord EXCEPT ![dim + 1] = v - 1] /\ pc' = pc
  /\ UNCHANGED <<Pr, res, tab, n, x, fit, slack>>

Commit ==
  /\ pc = "sample" /\ Complete_
  /\ LET c == CellOf(Pr.d, coord)
         near == Le(AbsDiff(fit[c], Unit), FitTol)
     IN /\ Place(c, 1)
        /\ \/ \* still not negative
              /\ near \/ Cmp(fit[c], Unit) >= 0
              /\ fit' = [fit EXCEPT ![c] = IF Cmp(@, Unit) >= 0 THEN Minus(@, Unit) ELSE <<>>]
              /\ slack' = (slack \/ Cmp(fit[c], Unit) < 0)
              /\ pc' = "draw"
           \/ \* negative: fit again
              /\ near \/ Cmp(fit[c], Unit) < 0
              /\ pc' = "fit" /\ UNCHANGED <<fit, slack>>
  /\ UNCHANGED <<x, coord>>
Finish == pc \in {"draw"} /\ n = Pr.pop /\ pc' = "done" /\ UNCHANGED <<Pr, res, tab, n, x, coord, fit, slack>>

(***************************************************************************)
(* The inverse cumulative distribution over fixed-point weights.  A point   *)
(* within 2^-26 of a boundary may go either way.                            *)
(***************************************************************************)
Word(w) == Add(MulNat(FromNat(w[1]), 65536), FromNat(w[2]))
TwoTo32 == <<7296, 9496, 42>>
FuzzyInverse(ws, word) ==
  LET s  == SumBig(ws)
      at == Mul(Word(word), s)
      lo == IF Le(FromNat(64), Word(word)) THEN Mul(Minus(Word(word), FromNat(64)), s) ELSE <<>>
      hi == Mul(Add(Word(word), FromNat(64)), s)
      run == FoldLeft(LAMBDA acc, w : Append(acc, Add(acc[Len(acc)], w)), <<<<>>>>, ws)       \* run[v] .. run[v+1] is value v
      sc  == [i \in DOMAIN run |-> Mul(run[i], TwoTo32)]
      picks(y) == {v \in DOMAIN ws : Le(sc[v], y) /\ Lt_(y, sc[v + 1])}
  IN picks(at) \cup picks(lo) \cup picks(hi)

AnyPositive(ws, dim) == {v \in DOMAIN ws : ws[v] # <<>>}

(***************************************************************************)
(* Properties.                                                              *)
(***************************************************************************)
\* between individuals, the fitted array has the residual marginals
FitMatchesResiduals ==
  (pc = "draw" /\ ~slack) => Le(MaxErrorOf(Pr.proj, FxRes, fit), <<1000>>)
\* a positive seed and disjoint marginals: nothing can go wrong (C08)
GuaranteedFit ==
  Pr.sure => /\ pc \notin {"failed", "unfit"}
             /\ NonNegRes
             /\ pc = "done" => Matched
ZeroCellsEmpty == \A c \in DOMAIN tab : Pr.seed[c] = <<>> => tab[c] = 0
============================================================================
