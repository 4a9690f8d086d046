------------------------------ MODULE MCSobol ------------------------------
(* Facts about the table and the sequence it generates, coordinate by       *)
(* coordinate: these are what makes it "the" Sobol sequence (C11).          *)
EXTENDS Sobol

CONSTANT MaxK     \* blocks of up to 2^MaxK points are enumerated
VARIABLES c, v    \* coordinate, its direction numbers
vars == <<c, v>>
DirsOf(i) == IF i = 1 THEN FirstDirs ELSE Dirs(JoeKuo[i - 1])
Init == c \in 1..Min2(16, NDim) /\ v = DirsOf(c)
Next == c + 16 <= NDim /\ c' = c + 16 /\ v' = DirsOf(c')
Spec == Init /\ [][Next]_vars

(* Polynomials over GF(2) as numbers; degree at most 13 *)
P(i) == JoeKuo[i].a
RECURSIVE Mod(_, _)
Mod(a, p) == IF a < P2(Degree(p)) THEN a
             ELSE LET da == CHOOSE k \in 0..30 : a >= P2(k) /\ a < P2(k + 1)
                  IN Mod(a ^^ (p * P2(da - Degree(p))), p)
MulMod(a, b, p) == FoldLeft(LAMBDA acc, k : Mod((acc * 2) ^^ (IF Bit(b, 13 - k) = 1 THEN a ELSE 0), p), 0, [k \in 1..14 |-> k - 1])
\* x^n mod p
XPow(n, p) == FoldLeft(LAMBDA acc, k : LET s == MulMod(acc, acc, p) IN IF Bit(n, 13 - k) = 1 THEN Mod(s * 2, p) ELSE s, 1, [k \in 1..14 |-> k - 1])
\* prime divisors of 2^g - 1
Primes == <<{}, {3}, {7}, {3, 5}, {31}, {3, 7}, {127}, {3, 5, 17}, {7, 73}, {3, 11, 31}, {23, 89}, {3, 5, 7, 13}, {8191}>>
Primitive(p) ==
  LET g == Degree(p)
      n == P2(g) - 1
  IN /\ XPow(n, p) = Mod(1, p)
     /\ \A q \in Primes[g] : q = n \/ XPow(n \div q, p) # 1
     /\ (g > 1 /\ n \in Primes[g]) => Mod(2, p) # 1
TableOK == c > 1 =>
  /\ Primitive(P(c - 1))
  /\ \A i \in 1..Len(JoeKuo) : P(i) = P(c - 1) => i = c - 1            \* each polynomial once
  /\ Degree(P(c - 1)) <= 13
  /\ c > 2 => Degree(P(c - 2)) <= Degree(P(c - 1))
  /\ Len(JoeKuo[c - 1].m) >= Degree(P(c - 1))
  /\ \A j \in 1..Degree(P(c - 1)) : JoeKuo[c - 1].m[j] % 2 = 1 /\ JoeKuo[c - 1].m[j] < P2(j)
\* direction number j has bit 2^-j and nothing below it
LowestIs(w, j) == IF j <= 16 THEN w[2] = 0 /\ w[1] % P2(17 - j) = P2(16 - j)
                  ELSE w[2] % P2(33 - j) = P2(32 - j)
Triangular == \A j \in 1..32 : LowestIs(v[j], j)
\* one point of every aligned block of 2^k in each interval of length 2^-k
Top(w, k) == w[1] \div P2(16 - k)
Blocks == \A k \in 0..MaxK : \A b \in {0, 1, 5} :
   Cardinality({Top(StateAt(v, <<0, b * P2(k) + i>>), k) : i \in 0..(P2(k) - 1)}) = P2(k)
FirstIsHalf == StateAt(v, <<0, 1>>) = <<P2(15), 0>>
\* one step at a time gives the closed form
StepIsClosedForm == \A n \in {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<0, 7>>, <<0, 65535>>, <<1, 0>>, <<3, 65535>>, <<32767, 65535>>, <<65535, 65534>>} :
   StateAt(v, IncW(n)) = XorW(StateAt(v, n), v[RightZeroW(n) + 1])
NotOneBlock == c # 2 \/ StateAt(v, <<0, 2>>)[1] = StateAt(v, <<0, 3>>)[1]     \* control: false
============================================================================
