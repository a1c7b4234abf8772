----------------------------- MODULE StlResidual -----------------------------
(* pysad.transform.preprocessing.ModifiedSTLResidualTransformer.  Integer      *)
(* values; e.seas is the STL seasonal component of the newest value of window  *)
(* e.win (times Q), computed outside pysad.                                    *)
EXTENDS Util

Init(cfg) == [W |-> cfg.W, p |-> cfg.p, Q |-> cfg.Q, win |-> <<>>]
Push(st, x) == Suffix(Append(st.win, x), st.W)
Apply(st, e) == IF e.op \in {"fit", "fit_transform"} THEN [st EXCEPT !.win = Push(st, e.x)] ELSE st

ResOK(st, e) ==
  LET w == Push(st, e.x) IN
  IF Len(w) < 2 * st.p THEN IsNum(e.r) /\ e.r.v = 0
  ELSE /\ IsNum(e.r)
       /\ Abs(2 * e.r.v - (st.Q * (2 * e.x - Median2(w)) - 2 * e.seas)) <= 6

Verdict(st, e) ==
  CASE e.op \in {"new", "fit"} -> IF e.r.k = "ok" THEN "" ELSE e.op \o "-failed"
    [] e.op \in {"transform", "fit_transform"} ->
         IF Len(Push(st, e.x)) >= 2 * st.p /\ e.win # Push(st, e.x) THEN "driver-window-mismatch"
         ELSE IF ResOK(st, e) THEN "" ELSE e.op \o "-stl-residual-of-newest-value"
    [] OTHER -> "unknown-event"
=============================================================================
