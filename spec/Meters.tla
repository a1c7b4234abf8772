------------------------------- MODULE Meters -------------------------------
(* pysad.statistics.*Meter and AbsStatistic: update / remove / get.           *)
(* cfg: kind, abs (wrapped in AbsStatistic), Q (units per one).               *)
EXTENDS Stat

Init(cfg) == [kind |-> cfg.kind, abs |-> cfg.abs, Q |-> cfg.Q, m |-> MeterInit]

Apply(st, e) ==
  CASE e.op = "update" -> [st EXCEPT !.m = MeterAdd(@, e.x)]
    [] e.op = "remove" -> [st EXCEPT !.m = MeterDel(@, e.x)]
    [] OTHER           -> st

Value(st) == LET v == MeterGet(st.kind, 1, st.m) IN IF st.abs THEN AbsStat(v) ELSE v

Verdict(st, e) ==
  CASE e.op \in {"new", "update", "remove"} -> IF e.r.k = "ok" THEN "" ELSE e.op \o "-failed"
    [] e.op = "get" ->
         IF st.kind = "var" /\ st.m.n > 0 /\ e.r.k = "num" /\ e.neg THEN "variance-negative"
         ELSE IF StatMatches(Value(st), e.r, st.Q, 1) THEN "" ELSE "statistic-" \o st.kind
    [] OTHER -> "unknown-event"

\* Declarative: the values updated and not removed, in insertion order.
Held(h) == FoldLeft(LAMBDA acc, o : CASE o.op = "update" -> Append(acc, o.x)
                                      [] o.op = "remove" -> RemoveOne(acc, o.x)
                                      [] OTHER -> acc, <<>>, h)
=============================================================================
