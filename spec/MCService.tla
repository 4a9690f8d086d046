------------------------------ MODULE MCService ----------------------------
(* The loops of the library at small word sizes, as refinements of Service: *)
(* every one of them ends.  Fault selects a loop as it should not be.       *)
EXTENDS Service
CONSTANTS Word,      \* machine integers are modulo 2^Word where Fault = "wrap"
          MaxPop, MaxIter, MaxCells,
          Fault      \* "none", "wrap", "nosum", "nodims", "unlimited"
VARIABLES kind, reg
vars == <<phase, loops, left, outcome, kind, reg>>
Mod == 2 ^ Word
W(x) == IF Fault = "wrap" THEN x % Mod ELSE x

Init == SvcInit /\ kind = "none" /\ reg = <<>>
Idle == phase = "idle" /\ phase' = "busy" /\ outcome' = "none" /\ UNCHANGED <<loops, left>>
Done(o) == phase' = "idle" /\ outcome' = o /\ kind' = "none" /\ reg' = <<>> /\ UNCHANGED <<loops, left>>
Go(k, r) == kind' = k /\ reg' = r /\ UNCHANGED <<loops, left>>
Step(k, r) == Go(k, r) /\ UNCHANGED <<phase, outcome>>

\* skipping points: double until the next power of two is no longer below n, then consume that many
StartSkip == \E n \in 0..(Mod - 1) : Idle /\ Go("double", <<n, 1>>)
Double == /\ phase = "busy" /\ kind = "double"
          /\ IF W(2 * reg[2]) < reg[1] THEN Step("double", <<reg[1], W(2 * reg[2])>>)
             ELSE Step("consume", <<reg[2]>>)
Consume == /\ phase = "busy" /\ kind = "consume"
           /\ IF reg[1] = 0 THEN Done("ok") ELSE Step("consume", <<reg[1] - 1>>)

\* fitting: at most MaxIter rounds over all cells, however it goes
StartFit == \E cells \in 1..MaxCells, c \in BOOLEAN : Idle /\ Go("fit", <<cells, 0, c>>)
Fit == /\ phase = "busy" /\ kind = "fit"
       /\ IF reg[2] = MaxIter /\ Fault # "unlimited" THEN Done("ok")
          ELSE \/ reg[3] /\ Done("ok")            \* close enough
               \/ Step("fit", <<reg[1], IF reg[2] < MaxIter THEN reg[2] + 1 ELSE reg[2], reg[3]>>)

\* an odometer over some dimensions of given sizes; with no dimension it has exactly one position
StartWalk == \E s \in {<<>>} \cup [1..1 -> 1..3] \cup [1..2 -> 1..2] :
               Idle /\ Go("walk", <<s, [i \in DOMAIN s |-> 0], FALSE>>)
Bump(s, p) ==
  IF \E i \in DOMAIN s : p[i] + 1 < s[i]
  THEN LET i == CHOOSE j \in DOMAIN s : p[j] + 1 < s[j] /\ \A k \in DOMAIN s : k > j => p[k] + 1 = s[k]
       IN <<[k \in DOMAIN s |-> IF k < i THEN p[k] ELSE IF k = i THEN p[k] + 1 ELSE 0], FALSE>>
  ELSE <<[k \in DOMAIN s |-> 0], ~(s = <<>> /\ Fault = "nodims")>>
Walk == /\ phase = "busy" /\ kind = "walk"
        /\ IF reg[3] THEN Done("ok")
           ELSE LET b == Bump(reg[1], reg[2]) IN Step("walk", <<reg[1], b[1], b[2]>>)

\* sampling: every individual placed, or the call fails; each may need a fit
StartSample == \E pop \in 0..MaxPop : Idle /\ Go("sample", <<pop, 0>>)
Sample == /\ phase = "busy" /\ kind = "sample"
          /\ IF reg[1] = 0 THEN Done("ok")
             ELSE \/ Done("err")
                  \/ Step("sample", <<reg[1] - 1, 0>>)
                  \/ reg[2] = 0 /\ Step("sample", <<reg[1], MaxIter + 1>>)
                  \/ reg[2] > 1 /\ Step("sample", <<reg[1], reg[2] - 1>>)

\* rounding: hand out what rounding down left over; "nan" stands for values that are not numbers (zero total)
StartRound == \E n \in 1..MaxCells, v \in {"number", "nan"} : Idle /\ Go("round", <<v, n>>)
Hand == /\ phase = "busy" /\ kind = "round"
        /\ IF reg[1] = "nan" /\ Fault # "nosum" THEN Done("err")
           ELSE IF reg[1] = "number" /\ reg[2] = 0 THEN Done("ok")
           ELSE Step("round", <<reg[1], IF reg[1] = "number" THEN reg[2] - 1 ELSE reg[2]>>)

Start == StartSkip \/ StartFit \/ StartWalk \/ StartSample \/ StartRound
Go_on == Double \/ Consume \/ Fit \/ Walk \/ Sample \/ Hand
Next == Start \/ Go_on
Spec == Init /\ [][Next]_vars /\ WF_vars(Go_on)
Terminates == (phase = "busy") ~> (phase = "idle")

\* the variant of each loop: a bound on the rounds still to come, worked out from the arguments
At(s, p) == IF s = <<>> THEN 0 ELSE IF Len(s) = 1 THEN p[1] ELSE p[1] * s[2] + p[2]
Cells(s) == IF s = <<>> THEN 1 ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] * s[2]
Rank == CASE kind = "double" -> 2 * Mod - reg[2]
          [] kind = "consume" -> reg[1]
          [] kind = "fit" -> MaxIter - reg[2]
          [] kind = "walk" -> IF reg[3] THEN 0 ELSE Cells(reg[1]) - At(reg[1], reg[2])
          [] kind = "sample" -> reg[1] * (MaxIter + 3) + (IF reg[2] = 0 THEN MaxIter + 2 ELSE reg[2])
          [] kind = "round" -> reg[2]
          [] OTHER -> 0
RankPositive == Rank >= 0
RankDecreases == [][(phase = "busy" /\ phase' = "busy" /\ kind = kind') => Rank' < Rank]_vars
EndsInResultOrError == phase = "idle" => outcome \in {"none", "ok", "err"}
\* nothing of a call remains
NothingRemains == phase = "idle" => reg = <<>> /\ kind = "none" /\ loops = <<>> /\ left = 0
============================================================================
