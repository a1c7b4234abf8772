-------------------------------- MODULE Stat --------------------------------
(* Univariate statistics: the implementation-shaped accumulator ("meter") and *)
(* the declarative statistic over a sequence of values.  A statistic value is *)
(* [k |-> "num", n |-> numerator, d |-> denominator], or an infinity.         *)
EXTENDS Util

Rat(n, d) == [k |-> "num", n |-> n, d |-> d]
Infin(s)  == [k |-> s, n |-> 0, d |-> 1]
Undef     == [k |-> "undef", n |-> 0, d |-> 1]

(* ---- declarative: statistic of exactly the values in the sequence s ---- *)
\* kinds "usum" / "useq" are the user-defined statistics of the harness:
\* usum = w * SUM x,  useq = w * SUM i*x_i (order sensitive).
StatOf(kind, w, s) ==
  LET n == Len(s) IN
  CASE kind = "count"  -> Rat(n, 1)
    [] kind = "sum"    -> Rat(SumSeq(s), 1)
    [] kind = "sumsq"  -> Rat(SumSqSeq(s), 1)
    [] kind = "avg"    -> IF n = 0 THEN Undef ELSE Rat(SumSeq(s), n)
    [] kind = "var"    -> IF n = 0 THEN Undef
                          ELSE Rat(n * SumSqSeq(s) - SumSeq(s) * SumSeq(s), n * n)
    [] kind = "min"    -> IF n = 0 THEN Infin("inf") ELSE Rat(MinSeq(s), 1)
    [] kind = "max"    -> IF n = 0 THEN Infin("ninf") ELSE Rat(MaxSeq(s), 1)
    [] kind = "median" -> IF n = 0 THEN Undef ELSE Rat(Median2(s), 2)
    [] kind = "usum"   -> Rat(w * SumSeq(s), 1)
    [] kind = "useq"   -> Rat(w * SumSeq([i \in 1..n |-> i * s[i]]), 1)
    [] OTHER           -> Undef

AbsStat(v) == CASE v.k = "num"  -> Rat(Abs(v.n), v.d)
                [] v.k = "ninf" -> Infin("inf")
                [] OTHER        -> v

(* ---- implementation-shaped meter: running count, sum, sum of squares and  *)
(*      the multiset (kept in insertion order) for the order statistics ---- *)
MeterInit == [n |-> 0, sum |-> 0, ss |-> 0, lst |-> <<>>]
MeterAdd(m, x) == [n |-> m.n + 1, sum |-> m.sum + x, ss |-> m.ss + x * x, lst |-> Append(m.lst, x)]
MeterDel(m, x) == [n |-> m.n - 1, sum |-> m.sum - x, ss |-> m.ss - x * x, lst |-> RemoveOne(m.lst, x)]
MeterGet(kind, w, m) ==
  CASE kind = "count" -> Rat(m.n, 1)
    [] kind = "sum"   -> Rat(m.sum, 1)
    [] kind = "sumsq" -> Rat(m.ss, 1)
    [] kind = "avg"   -> IF m.n = 0 THEN Undef ELSE Rat(m.sum, m.n)
    [] kind = "var"   -> IF m.n = 0 THEN Undef ELSE Rat(m.n * m.ss - m.sum * m.sum, m.n * m.n)
    [] kind = "usum"  -> Rat(w * m.sum, 1)
    [] OTHER          -> StatOf(kind, w, m.lst)

(* the recorded result r (Q units per one) is the statistic value v *)
StatMatches(v, r, Q, tol) ==
  CASE v.k = "num"   -> Near(r, v.n, v.d, Q, tol)
    [] v.k = "undef" -> TRUE
    [] OTHER         -> r.k = v.k
=============================================================================
