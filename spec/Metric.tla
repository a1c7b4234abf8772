-------------------------------- MODULE Metric --------------------------------
(* Evaluation metrics over a history of (label, prediction) pairs.            *)
(* Pairs are <<y, s>>, y \in {0,1}, s an integer (binary for precision and    *)
(* recall).  cfg.kind \in {precision, recall, auroc, aupr}.                   *)
EXTENDS Util

Pos(h) == SelectSeq(h, LAMBDA p : p[1] = 1)
Neg(h) == SelectSeq(h, LAMBDA p : p[1] = 0)
TP(h)  == CountIf(LAMBDA p : p[1] = 1 /\ p[2] = 1, h)
PP(h)  == CountIf(LAMBDA p : p[2] = 1, h)

\* twice the number of concordant (positive, negative) pairs, ties count one
Concord2(h) ==
  LET ns == Neg(h)
  IN  SumSeq([i \in 1..Len(Pos(h)) |->
        LET s == Pos(h)[i][2]
        IN  FoldLeft(LAMBDA a, p : IF p[2] < s THEN a + 2 ELSE IF p[2] = s THEN a + 1 ELSE a, 0, ns)])

Thresholds(h) == { h[i][2] : i \in 1..Len(h) }
TPat(h, t) == CountIf(LAMBDA p : p[1] = 1 /\ p[2] >= t, h)
PPat(h, t) == CountIf(LAMBDA p : p[2] >= t, h)
TPeq(h, t) == CountIf(LAMBDA p : p[1] = 1 /\ p[2] = t, h)

\* floor(num * Q / den) digit by digit (Q a power of ten), for products that
\* would leave TLC's integers if multiplied out; den < 2 * 10^8
RECURSIVE Digits(_, _, _, _)
Digits(rem, den, Q, acc) == IF Q = 1 THEN acc ELSE Digits((rem * 10) % den, den, Q \div 10, acc * 10 + (rem * 10) \div den)
Wide(num, den, Q) == Digits(num % den, den, Q, num \div den)

\* average precision = SUM over thresholds of (delta recall) * precision, in
\* units of 1/Q, each term rounded down (so low by at most one unit per term)
APScaled(h, Q) ==
  LET P  == Len(Pos(h))
      ts == SetToSeq({ t \in Thresholds(h) : TPeq(h, t) > 0 })
  IN  SumSeq([i \in 1..Len(ts) |-> Wide(TPeq(h, ts[i]) * TPat(h, ts[i]), P * PPat(h, ts[i]), Q)])
APTerms(h) == Cardinality({ t \in Thresholds(h) : TPeq(h, t) > 0 })

\* value of the metric over the pairs h: [k |-> "num", lo, hi] (Q units), "exc" or "undef"
Val(lo, hi) == [k |-> "num", lo |-> lo, hi |-> hi]
None(k) == [k |-> k, lo |-> 0, hi |-> 0]
Frac(n, d, Q) == LET e == Wide(n, d, Q) IN Val(e - 1, e + 2)
MetricOf(kind, h, Q) ==
  CASE kind = "precision" -> IF Len(h) = 0 THEN None("undef") ELSE IF PP(h) = 0 THEN Val(0, 0) ELSE Frac(TP(h), PP(h), Q)
    [] kind = "recall"    -> IF Len(h) = 0 THEN None("undef") ELSE IF Len(Pos(h)) = 0 THEN Val(0, 0) ELSE Frac(TP(h), Len(Pos(h)), Q)
    [] kind = "auroc"     -> IF Len(Pos(h)) = 0 \/ Len(Neg(h)) = 0 THEN None("exc")
                             ELSE Frac(Concord2(h), 2 * Len(Pos(h)) * Len(Neg(h)), Q)
    [] kind = "aupr"      -> IF Len(Pos(h)) = 0 THEN None("undef")
                             ELSE LET s == APScaled(h, Q) IN Val(s - 1, s + APTerms(h) + 1)
    [] OTHER              -> None("undef")

Matches(v, r) ==
  CASE v.k = "num"   -> IsNum(r) /\ r.v >= v.lo /\ r.v <= v.hi
    [] v.k = "exc"   -> r.k = "exc" /\ r.t = "ValueError"
    [] OTHER         -> TRUE

Init(cfg) == [kind |-> cfg.kind, Q |-> cfg.Q, h |-> <<>>]
Apply(st, e) == IF e.op = "update" THEN [st EXCEPT !.h = Append(@, <<e.y, e.s>>)] ELSE st
Verdict(st, e) ==
  CASE e.op \in {"new", "update"} -> IF e.r.k = "ok" THEN "" ELSE e.op \o "-failed"
    [] e.op = "get" -> IF Matches(MetricOf(st.kind, st.h, st.Q), e.r) THEN "" ELSE "metric-" \o st.kind
    [] OTHER -> "unknown-event"
=============================================================================
