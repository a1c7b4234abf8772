-------------------------------- MODULE Util --------------------------------
(* Arithmetic and sequence helpers shared by every component specification.   *)
(* TLC integers are 32 bit: products that may exceed that are compared with   *)
(* the little BigNat library at the end (little-endian limbs, base 10^4).     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Abs(x)    == IF x < 0 THEN -x ELSE x
MinI(a,b) == IF a < b THEN a ELSE b
MaxI(a,b) == IF a > b THEN a ELSE b

RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)

SumSeq(s)   == FoldLeft(LAMBDA a, x : a + x, 0, s)
SumSqSeq(s) == FoldLeft(LAMBDA a, x : a + x * x, 0, s)
MapSeq(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
CountIf(P(_), s) == FoldLeft(LAMBDA a, x : IF P(x) THEN a + 1 ELSE a, 0, s)
MaxSeq(s)   == FoldLeft(LAMBDA a, x : MaxI(a, x), s[1], s)
MinSeq(s)   == FoldLeft(LAMBDA a, x : MinI(a, x), s[1], s)
Sorted(s)   == SortSeq(s, LAMBDA a, b : a < b)

\* The most recent min(n, Len(s)) elements of s, in arrival order.
Suffix(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

\* s with the first occurrence of x removed (s unchanged if x does not occur).
RemoveOne(s, x) ==
  IF \E i \in 1..Len(s) : s[i] = x
  THEN LET i == CHOOSE j \in 1..Len(s) : s[j] = x /\ \A k \in 1..(j-1) : s[k] # x
       IN  SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
  ELSE s

\* Twice the median of a non-empty sequence (always an integer).
Median2(s) ==
  LET t == Sorted(s)
      n == Len(s)
  IN  IF n % 2 = 1 THEN 2 * t[(n \div 2) + 1]
      ELSE t[n \div 2] + t[(n \div 2) + 1]

----------------------------------------------------------------------------
(* Fixed-point results.  A recorded numeric result is [k |-> kind, v |-> int]. *)
(* kind "num": v = round(value * Q), |v| <= 10^9.  Other kinds: nan, inf,      *)
(* ninf, big, exc, timeout, other.                                             *)
IsNum(r) == r.k = "num"

\* floor(num*Q/den) without forming num*Q (needs den*Q < 2^31).
Scaled(num, den, Q) == (num \div den) * Q + ((num % den) * Q) \div den

\* the recorded result equals num/den up to tol units of 1/Q
Near(r, num, den, Q, tol) ==
  /\ IsNum(r)
  /\ LET e == Scaled(num, den, Q) IN r.v - e >= -tol /\ r.v - e <= tol + 1

----------------------------------------------------------------------------
(* BigNat *)
BB == 10000
RECURSIVE ToBig(_)
ToBig(n) == IF n < BB THEN <<n>> ELSE <<n % BB>> \o ToBig(n \div BB)

BLimb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

\* propagate carries of a sequence of (possibly large) limbs
RECURSIVE BCarry(_, _)
BCarry(s, c) ==
  IF s = <<>> THEN IF c = 0 THEN <<>> ELSE <<c % BB>> \o BCarry(<<>>, c \div BB)
  ELSE LET x == Head(s) + c IN <<x % BB>> \o BCarry(Tail(s), x \div BB)

BAdd(a, b) == BCarry([i \in 1..MaxI(Len(a), Len(b)) |-> BLimb(a, i) + BLimb(b, i)], 0)

BMul(a, b) ==
  BCarry([k \in 1..(Len(a) + Len(b)) |->
            SumSeq([i \in 1..Len(a) |-> IF k - i + 1 \in 1..Len(b) THEN a[i] * b[k - i + 1] ELSE 0])], 0)

\* -1, 0, 1 comparison
BCmp(a, b) ==
  LET n == MaxI(Len(a), Len(b))
      D == { i \in 1..n : BLimb(a, i) # BLimb(b, i) }
  IN  IF D = {} THEN 0
      ELSE LET m == CHOOSE i \in D : \A j \in D : j <= i
           IN  IF BLimb(a, m) < BLimb(b, m) THEN -1 ELSE 1

\* product of a sequence of naturals
BProd(s) == FoldLeft(LAMBDA a, x : BMul(a, ToBig(x)), <<1>>, s)
BLeq(s, t) == BCmp(BProd(s), BProd(t)) <= 0    \* Prod(s) <= Prod(t)

\* recorded r (scale Q) equals sign * a / sqrt(D) up to tol units, D > 0
NearRoot(r, a, D, Q, tol) ==
  /\ IsNum(r)
  /\ LET m  == Abs(r.v)
         lo == MaxI(m - tol, 0)
         hi == m + tol
         aa == Abs(a)
     IN  /\ BLeq(<<lo, lo, D>>, <<Q, Q, aa, aa>>)
         /\ BLeq(<<Q, Q, aa, aa>>, <<hi, hi, D>>)
         /\ (m > tol => ((r.v > 0) <=> (a > 0)))
=============================================================================
