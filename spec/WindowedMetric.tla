--------------------------- MODULE WindowedMetric ---------------------------
(* pysad.evaluation.WindowedMetric.  State shaped like the code: the pairs of *)
(* the open window and the scores of the closed windows.                      *)
(* cfg: kind (precision, recall, auroc, user), w, ign, wt (kwarg of the user  *)
(* metric: value = wt * SUM i*(2*y_i + s_i), order sensitive), Q              *)
EXTENDS Util
M == INSTANCE Metric

UserVal(wt, h) == wt * SumSeq([i \in 1..Len(h) |-> i * (2 * h[i][1] + h[i][2])])
WinVal(kind, wt, h, Q) ==
  IF kind = "user" THEN [k |-> "num", lo |-> UserVal(wt, h) * Q, hi |-> UserVal(wt, h) * Q]
  ELSE M!MetricOf(kind, h, Q)

Init(cfg) == [kind |-> cfg.kind, w |-> cfg.w, ign |-> cfg.ign, wt |-> cfg.wt, Q |-> cfg.Q,
              cur |-> <<>>, lo |-> 0, hi |-> 0, closed |-> 0]

Apply(st, e) ==
  IF e.op = "update"
  THEN LET c == Append(st.cur, <<e.y, e.s>>)
       IN  IF Len(c) = st.w
           THEN LET v == WinVal(st.kind, st.wt, c, st.Q)
                IN  [st EXCEPT !.cur = <<>>, !.closed = @ + 1, !.lo = @ + v.lo, !.hi = @ + v.hi]
           ELSE [st EXCEPT !.cur = c]
  ELSE st

\* average over `n` windows whose scores add up to [lo, hi]
AvgOK(r, lo, hi, n) == IsNum(r) /\ r.v >= (lo \div n) - 1 /\ r.v <= (hi \div n) + 2

Verdict(st, e) ==
  CASE e.op \in {"new", "update"} -> IF e.r.k = "ok" THEN "" ELSE e.op \o "-failed"
    [] e.op = "get" ->
         LET cv == WinVal(st.kind, st.wt, st.cur, st.Q) IN
         IF st.closed = 0
         THEN IF st.cur = <<>> \/ M!Matches(cv, e.r) THEN "" ELSE "partial-first-window"
         ELSE IF st.ign \/ st.cur = <<>>
              THEN IF AvgOK(e.r, st.lo, st.hi, st.closed) THEN "" ELSE "average-of-closed-windows"
              ELSE IF cv.k # "num" THEN ""
                   ELSE IF AvgOK(e.r, st.lo + cv.lo, st.hi + cv.hi, st.closed + 1) THEN "" ELSE "average-with-partial-window"
    [] OTHER -> "unknown-event"

\* Declarative: split of the pairs into consecutive windows of w
Windows(h, w) == [k \in 1..(Len(h) \div w) |-> SubSeq(h, (k-1)*w + 1, k*w)]
Rest(h, w) == SubSeq(h, (Len(h) \div w) * w + 1, Len(h))
=============================================================================
