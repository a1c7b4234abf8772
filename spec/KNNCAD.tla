------------------------------- MODULE KNNCAD -------------------------------
(* pysad.models.KNNCAD.  Phases: probation (0.0), ranking, refractory (0.5).   *)
(* Non-conformity values enter as ranks (equal value = equal rank); which      *)
(* reference values are retained, and the phase, are state.                    *)
EXTENDS Util

Init(cfg) == [P |-> cfg.P, dim |-> cfg.dim, numeric |-> cfg.numeric, Q |-> cfg.Q,
              n |-> 0, pred |-> 0, ref |-> <<>>]

Keep(st) == st.P - st.dim                 \* number of retained reference values
Fit(st, e) ==
  LET n == st.n + 1
      r == IF n < st.P THEN <<>>
           ELSE Suffix(Append(IF n = st.P THEN e.init ELSE st.ref, e.s), Keep(st))
  IN  [st EXCEPT !.n = n, !.ref = r]

Smaller(st, q) == CountIf(LAMBDA x : x < q, st.ref)
Frac(st, q) == <<Smaller(st, q), Keep(st)>>
Alarm(k, st) == k * 10000 >= 9965 * Keep(st)

Phase(st) == IF st.n < st.P THEN "probation" ELSE IF st.pred > 0 THEN "refractory" ELSE "rank"

\* number of smaller reference values the recorded score stands for (or -1)
CountOf(st, r) == IF \E k \in 0..Keep(st) : Near(r, k, Keep(st), st.Q, 1)
                  THEN CHOOSE k \in 0..Keep(st) : Near(r, k, Keep(st), st.Q, 1) ELSE -1

Score(st, k) == CASE Phase(st) = "probation" -> st
                  [] Phase(st) = "refractory" -> [st EXCEPT !.pred = @ - 1]
                  [] Alarm(k, st) -> [st EXCEPT !.pred = st.P \div 5]
                  [] OTHER -> st

Apply(st, e) == CASE e.op = "fit" -> Fit(st, e)
                  [] e.op = "score" -> Score(st, IF st.numeric THEN Smaller(st, e.q) ELSE CountOf(st, e.r))
                  [] OTHER -> st

Verdict(st, e) ==
  CASE e.op \in {"new", "fit"} -> IF e.r.k = "ok" THEN "" ELSE e.op \o "-failed"
    [] e.op = "score" ->
         CASE Phase(st) = "probation" -> IF st.n = 0 \/ (IsNum(e.r) /\ e.r.v = 0) THEN "" ELSE "zero-during-probation"
           [] Phase(st) = "refractory" -> IF IsNum(e.r) /\ 2 * e.r.v = st.Q THEN "" ELSE "refractory-score-is-one-half"
           [] st.numeric -> IF Near(e.r, Smaller(st, e.q), Keep(st), st.Q, 1) THEN "" ELSE "fraction-of-smaller-reference-scores"
           [] OTHER -> IF CountOf(st, e.r) >= 0 THEN "" ELSE "fraction-of-retained-reference-scores"
    [] OTHER -> "unknown-event"
=============================================================================
