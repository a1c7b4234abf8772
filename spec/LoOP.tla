-------------------------------- MODULE LoOP --------------------------------
(* pysad.models.LocalOutlierProbability on integer-valued data.                *)
(* The model is its initial data, k and extent; nothing fitted later is part   *)
(* of it.  A score is a function of the sum of the squared distances to the k  *)
(* nearest initial instances, non-decreasing in it, within [0, 1], and equal   *)
(* to what the reference detector trained on the same data reports (e.ref).    *)
EXTENDS Util
Q == 100000000
Init(cfg) == [data |-> cfg.data, k |-> cfg.k, seen |-> <<>>]

Dist2(a, b) == SumSeq([i \in 1..Len(a) |-> (a[i] - b[i]) * (a[i] - b[i])])
Ssd(st, x) == LET ds == Sorted([i \in 1..Len(st.data) |-> Dist2(st.data[i], x)]) IN SumSeq(SubSeq(ds, 1, st.k))

Apply(st, e) == IF e.op = "score" /\ e.r.k = "num" THEN [st EXCEPT !.seen = Append(@, <<Ssd(st, e.x), e.r.v>>)] ELSE st

Verdict(st, e) ==
  CASE e.op = "new" -> IF e.r.k = "ok" THEN "" ELSE "new-failed"
    [] e.op = "fit" -> IF e.r.k = "ok" THEN "" ELSE "fit-failed"
    [] e.op = "score" ->
         IF ~IsNum(e.r) THEN "score-is-a-number"
         ELSE IF e.r.v < 0 \/ e.r.v > Q THEN "score-is-a-probability"
         ELSE IF Abs(e.r.v - e.ref.v) > 2 THEN "score-of-the-initial-data-alone"
         ELSE LET s == Ssd(st, e.x) IN
              IF \E i \in 1..Len(st.seen) : \/ st.seen[i][1] = s /\ Abs(st.seen[i][2] - e.r.v) > 2
                                            \/ st.seen[i][1] < s /\ st.seen[i][2] > e.r.v + 2
                                            \/ st.seen[i][1] > s /\ st.seen[i][2] < e.r.v - 2
              THEN "score-grows-with-the-neighbour-distances" ELSE ""
    [] OTHER -> "unknown-event"
=============================================================================
