----------------------------- MODULE RunningStat -----------------------------
(* pysad.statistics.RunningStatistic: a wrapped statistic kept over the last  *)
(* cfg.w values: update the statistic, then remove the value leaving.         *)
EXTENDS Stat

Init(cfg) == [kind |-> cfg.kind, abs |-> cfg.abs, wt |-> cfg.wt, w |-> cfg.w, Q |-> cfg.Q, win |-> <<>>, m |-> MeterInit]

Apply(st, e) ==
  IF e.op = "update"
  THEN LET w2 == Append(st.win, e.x)
           m2 == MeterAdd(st.m, e.x)
       IN  IF Len(w2) > st.w THEN [st EXCEPT !.win = Tail(w2), !.m = MeterDel(m2, Head(w2))]
           ELSE [st EXCEPT !.win = w2, !.m = m2]
  ELSE st

Value(st) == LET v == MeterGet(st.kind, st.wt, st.m) IN IF st.abs THEN AbsStat(v) ELSE v

Verdict(st, e) ==
  CASE e.op \in {"new", "update"} -> IF e.r.k = "ok" THEN "" ELSE e.op \o "-failed"
    [] e.op = "get" -> IF StatMatches(Value(st), e.r, st.Q, 1) THEN "" ELSE "running-" \o st.kind
    [] OTHER -> "unknown-event"

Updates(h) == LET u == SelectSeq(h, LAMBDA o : o.op = "update") IN [i \in 1..Len(u) |-> u[i].x]
=============================================================================
