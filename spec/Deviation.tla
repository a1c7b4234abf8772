------------------------------ MODULE Deviation ------------------------------
(* pysad.models.MedianAbsoluteDeviation ("mad") and StandardAbsoluteDeviation  *)
(* ("mean", "median").  Values are integers (units of the driver's scale).     *)
EXTENDS Util

Init(cfg) == [kind |-> cfg.kind, abs |-> cfg.abs, bn |-> cfg.bn, bd |-> cfg.bd, Q |-> cfg.Q,
              xs |-> <<>>, dev2 |-> <<>>]

\* a fitted value's deviation is taken from the median at that time, itself included
Apply(st, e) ==
  IF e.op # "fit" THEN st
  ELSE LET xs == Append(st.xs, e.x)
       IN  [st EXCEPT !.xs = xs, !.dev2 = IF st.kind = "mad" THEN Append(@, Abs(2 * e.x - Median2(xs))) ELSE <<>>]

Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
VarN(xs) == Len(xs) * SumSqSeq(xs) - SumSeq(xs) * SumSeq(xs)

\* signed numerator of (x - centre), up to a positive factor
Num(st, x) == IF st.kind = "mean" THEN Len(st.xs) * x - SumSeq(st.xs) ELSE 2 * x - Median2(st.xs)
Mad4(st) == Median2(st.dev2)
Zero(st) == IF st.kind = "mad" THEN Mad4(st) = 0 ELSE VarN(st.xs) = 0

ScoreOK(st, x, r) ==
  LET s == Num(st, x)
      a == IF st.abs THEN Abs(s) ELSE s
      n == Len(st.xs)
  IN  IF Zero(st) THEN IF s = 0 THEN IsNum(r) /\ Abs(r.v) <= 1
                       ELSE r.k = "big" /\ r.v = Sgn(a)
      ELSE CASE st.kind = "mad"    -> Near(r, 2 * a * st.bd, st.bn * Mad4(st), st.Q, 1)
             [] st.kind = "mean"   -> NearRoot(r, a, VarN(st.xs), st.Q, 2)
             [] st.kind = "median" -> NearRoot(r, n * a, 4 * VarN(st.xs), st.Q, 2)

Verdict(st, e) ==
  CASE e.op \in {"new", "fit"} -> IF e.r.k = "ok" THEN "" ELSE e.op \o "-failed"
    [] e.op = "score" -> IF st.xs = <<>> \/ ScoreOK(st, e.x, e.r) THEN "" ELSE st.kind \o "-deviation-score"
    [] OTHER -> "unknown-event"
=============================================================================
