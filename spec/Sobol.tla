------------------------------- MODULE Sobol -------------------------------
(* The Sobol sequence: Joe-Kuo direction numbers and Gray-code order.       *)
(* A 32-bit word is a pair <<hi, lo>> of 16-bit halves (TLC integers are    *)
(* 32 bits and signed); coordinate value = word / 2^32.                     *)
EXTENDS Nd, Bitwise, TLC, Json

CONSTANT NDim    \* number of coordinates whose direction numbers are needed (at most 1111)

H == 65536
P2(i) == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536,
           131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216, 33554432,
           67108864, 134217728, 268435456, 536870912, 1073741824>>[i + 1]

XorW(x, y)  == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
Zero       == <<0, 0>>
\* logical shift right by s < 16
Shr(x, s)  == <<x[1] \div P2(s), (x[1] % P2(s)) * P2(16 - s) + (x[2] \div P2(s))>>
\* m * 2^(31-j), for m < 2^(j+1), j <= 15
Align(m, j) == IF j <= 15 THEN <<m * P2(15 - j), 0>> ELSE <<0, 0>>

Degree(a) == CHOOSE k \in 1..13 : a >= P2(k) /\ a < P2(k + 1)
Bit(a, k) == (a \div P2(k)) % 2

\* the 32 left-aligned direction numbers of one coordinate: polynomial a (degree g), initial values m
\* (first coordinate: all bits set one at a time, i.e. the van der Corput sequence)
FirstDirs == [j \in 1..32 |-> IF j <= 16 THEN <<P2(16 - j), 0>> ELSE <<0, P2(32 - j)>>]
Dirs(t) ==
  LET g == Degree(t.a)
      init == [j \in 1..g |-> Align(t.m[j], j - 1)]
      step(v, j) ==  \* append direction number j (0-based), given 0..j-1
        Append(v,
          FoldLeft(LAMBDA acc, k : IF Bit(t.a, k) = 1 THEN XorW(acc, v[j - g + k + 1]) ELSE acc,
                   XorW(v[j - g + 1], Shr(v[j - g + 1], g)),
                   [k \in 1..(g - 1) |-> k]))
  IN FoldLeft(step, init, [i \in 1..(32 - g) |-> g + i - 1])

JoeKuo == ndJsonDeserialize("data/joekuo.ndjson")
DirNums == TLCEval([i \in 1..NDim |-> IF i = 1 THEN FirstDirs ELSE Dirs(JoeKuo[i - 1])])

\* position of the rightmost zero bit of n >= 0
RECURSIVE RightZero(_)
RightZero(n) == IF n % 2 = 0 THEN 0 ELSE 1 + RightZero(n \div 2)

\* one coordinate: from the state after n points (n = base + i, base a multiple of a power of two above i) to the next
Step(i, c, x) == XorW(x, DirNums[c][RightZero(i) + 1])

\* state of coordinate c after 2^p points: the Gray code of 2^p has bits p and p-1
AfterPow2Of(v, p) == IF p = 0 THEN v[1] ELSE XorW(v[p + 1], v[p])
AfterPow2(c, p) == AfterPow2Of(DirNums[c], p)

\* state of coordinate c after n points, directly from the Gray code (n < 2^31)
AfterN(c, n) ==
  LET g == n ^^ (n \div 2)
  IN FoldLeft(LAMBDA acc, k : IF Bit(g, k) = 1 THEN XorW(acc, DirNums[c][k + 1]) ELSE acc,
              Zero, [k \in 1..31 |-> k - 1])

\* the number of points discarded for a skip request n = <<hi, lo>> >= 1 is 2^SkipExp(n):
\* the largest power of two below n (but at least one point)
Lt(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Pow2W(p) == IF p >= 16 THEN <<P2(p - 16), 0>> ELSE <<0, P2(p)>>
SkipExp(n) == IF ~Lt(<<0, 2>>, n) THEN 0
              ELSE CHOOSE p \in 0..31 : /\ Lt(Pow2W(p), n)
                                        /\ p < 31 => ~Lt(Pow2W(p + 1), n)

(***************************************************************************)
(* Any position, as a word.                                                 *)
(***************************************************************************)
IncW(n) == IF n[2] = H - 1 THEN <<n[1] + 1, 0>> ELSE <<n[1], n[2] + 1>>
LastW == <<H - 1, H - 1>>           \* 2^32 - 1 points is all there are
BitW(n, k) == IF k < 16 THEN Bit(n[2], k) ELSE Bit(n[1], k - 16)
RightZeroW(n) == IF n[2] # H - 1 THEN RightZero(n[2]) ELSE 16 + RightZero(n[1])
GrayW(n) == XorW(n, Shr(n, 1))
\* state of a coordinate with direction numbers v after n points
StateAt(v, n) ==
  LET g == GrayW(n)
  IN FoldLeft(LAMBDA acc, k : IF BitW(g, k) = 1 THEN XorW(acc, v[k + 1]) ELSE acc, Zero, [k \in 1..32 |-> k - 1])
\* position after the points skipped on request n > 0
SkipTo(n) == Pow2W(SkipExp(n))
\* there is nothing beyond the last point
Sum2W(a, b) == LET l == a[2] + b[2]
                   h == a[1] + b[1] + (l \div H)
               IN IF h >= H THEN LastW ELSE <<h, l % H>>
============================================================================
