------------------------------- MODULE RSHash -------------------------------
(* pysad.models.RSHash on integer instances (the cell width is below 1, so two *)
(* instances share a cell of a component iff they agree on its subspace).      *)
(* cfg.tab[age + 1] = 2^(-decay*age) in units of 1/cfg.Q; the subspaces of the *)
(* components are hidden (cfg.m components; for one feature all are equal),     *)
(* among cfg.feat, the features whose minimum and maximum differ (all of them  *)
(* if none does).                                                              *)
EXTENDS Util

Subsp(cfg) == (SUBSET { cfg.feat[i] : i \in 1..Len(cfg.feat) }) \ {{}}
Hidden(cfg) == IF Len(cfg.feat) = 1 \/ cfg.m = 1 THEN { <<V>> : V \in Subsp(cfg) }
               ELSE { <<V, U>> : V \in Subsp(cfg), U \in Subsp(cfg) }

Init(cfg) == [m |-> cfg.m, dim |-> cfg.dim, tab |-> cfg.tab, Q |-> cfg.Q, h |-> <<>>, B |-> Hidden(cfg)]

Same(V, p, q) == \A f \in V : p[f] = q[f]
\* decayed number of earlier instances in the cell of the newest one
Decayed(st, V) ==
  LET n == Len(st.h)
  IN  SumSeq([i \in 1..(n - 1) |-> IF Same(V, st.h[i], st.h[n]) THEN st.tab[n - i + 1] ELSE 0])
\* half a unit of rounding for every counted instance
Tol(st, V) == LET n == Len(st.h) IN 3 + Cardinality({ i \in 1..(n - 1) : Same(V, st.h[i], st.h[n]) /\ st.tab[n - i + 1] > 0 }) \div 2

\* e.r: exp(score) - 1 (one distinct subspace) or exp(2*score) - 1 (two), in 1/Q
Explains(st, h, r) ==
  IF ~IsNum(r) THEN FALSE
  ELSE IF Len(h) = 1 THEN Abs(r.v - Decayed(st, h[1])) <= Tol(st, h[1])
  ELSE LET a == st.Q + Decayed(st, h[1])
           b == st.Q + Decayed(st, h[2])
       IN  Abs(r.v - ((a * b) \div st.Q - st.Q)) <= 4 * (Tol(st, h[1]) + Tol(st, h[2]))

Apply(st, e) ==
  CASE e.op = "fit"   -> [st EXCEPT !.h = Append(@, e.x)]
    [] e.op = "score" -> IF st.h = <<>> THEN st ELSE [st EXCEPT !.B = { h \in @ : Explains(st, h, e.r) }]
    [] OTHER -> st

Verdict(st, e) ==
  CASE e.op \in {"new", "fit"} -> IF e.r.k = "ok" THEN "" ELSE e.op \o "-failed"
    [] e.op = "score" -> IF st.h = <<>> \/ \E h \in st.B : Explains(st, h, e.r) THEN "" ELSE "decayed-count-score"
    [] OTHER -> "unknown-event"
=============================================================================
