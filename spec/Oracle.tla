------------------------------- MODULE Oracle -------------------------------
(* pysad.models.PerfectModel (a queue of labels) and NullModel (always 0.5).   *)
EXTENDS Util
Init(cfg) == [kind |-> cfg.kind, q |-> <<>>]

Fits(st, ls) == [st EXCEPT !.q = @ \o ls]
Take(st, n) == [st EXCEPT !.q = SubSeq(@, n + 1, Len(@))]
Valid(st, e) == st.kind = "null" \/ (\A i \in 1..Len(e.y) : e.y[i] # "none")
Apply(st, e) ==
  IF st.kind = "null" THEN st
  ELSE CASE e.op = "fit" -> IF Valid(st, e) THEN Fits(st, e.y) ELSE st
         [] e.op = "fit_score" -> IF Valid(st, e) THEN Take(Fits(st, e.y), Len(e.y)) ELSE st
         [] e.op = "score" -> Take(st, MinI(e.n, Len(st.q)))
         [] OTHER -> st

\* r: sequence of tokens of the scores returned (or an exception)
Want(st, e) == LET s == IF e.op = "fit_score" THEN Fits(st, e.y) ELSE st IN SubSeq(s.q, 1, MinI(e.n, Len(s.q)))
Verdict(st, e) ==
  CASE e.op = "new" -> IF e.r.k = "ok" THEN "" ELSE "new-failed"
    [] e.op = "fit" -> IF Valid(st, e) THEN IF e.r.k = "ok" THEN "" ELSE "fit-failed"
                       ELSE IF e.r.k = "exc" /\ e.r.t = "ValueError" THEN "" ELSE "missing-label-rejected"
    [] e.op \in {"score", "fit_score"} ->
         IF ~Valid(st, e) THEN IF e.r.k = "exc" /\ e.r.t = "ValueError" THEN "" ELSE "missing-label-rejected"
         ELSE IF st.kind = "null" THEN IF e.r.k = "ok" /\ Len(e.s) = e.n /\ \A i \in 1..Len(e.s) : e.s[i] = "0.5" THEN "" ELSE "null-score-is-one-half"
         ELSE IF Len(Want(st, e)) < e.n THEN ""             \* more scores than labels: not specified
         ELSE IF e.r.k = "ok" /\ e.s = Want(st, e) THEN "" ELSE "labels-first-in-first-out"
    [] OTHER -> "unknown-event"
=============================================================================
