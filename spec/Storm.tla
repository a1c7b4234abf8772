------------------------------- MODULE Storm -------------------------------
(* pysad.models.ExactStorm.  Instances are integer vectors (in units of the   *)
(* scenario's scale); the radius is sqrt(cfg.R4)/2 units.                     *)
EXTENDS Util

Init(cfg) == [w |-> cfg.w, R4 |-> cfg.R4, Q |-> cfg.Q, win |-> <<>>]
Add(st, x) == [st EXCEPT !.win = Suffix(Append(@, x), st.w)]
Apply(st, e) == IF e.op \in {"fit", "fit_score"} THEN Add(st, e.x) ELSE st

Dist2(p, q) == SumSeq([i \in 1..Len(p) |-> (p[i] - q[i]) * (p[i] - q[i])])
\* the window without the most recently fitted instance
Others(win) == IF win = <<>> THEN <<>> ELSE SubSeq(win, 1, Len(win) - 1)
Close(st, x) == CountIf(LAMBDA p : 4 * Dist2(p, x) < st.R4, Others(st.win))
ScoreOK(st, x, r) ==
  IF Others(st.win) = <<>> THEN Near(r, 0, 1, st.Q, 0)
  ELSE Near(r, Close(st, x), Len(st.win) - 1, st.Q, 1)

Verdict(st, e) ==
  CASE e.op \in {"new", "fit"} -> IF e.r.k = "ok" THEN "" ELSE e.op \o "-failed"
    [] e.op = "score" -> IF ScoreOK(st, e.x, e.r) THEN "" ELSE "neighbour-fraction"
    [] e.op = "fit_score" -> IF ScoreOK(Add(st, e.x), e.x, e.r) THEN "" ELSE "neighbour-fraction-after-fit"
    [] OTHER -> "unknown-event"
=============================================================================
