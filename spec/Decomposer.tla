----------------------------- MODULE Decomposer -----------------------------
(* pysad.transform.preprocessing.SeasonalTrendDecomposer, exact rationals.     *)
(* Values are integer vectors.  U[ph][f] / (tw * cnt[ph]) is the seasonal      *)
(* estimate of position ph for feature f.                                      *)
EXTENDS Util

Init(cfg) == [L |-> cfg.L, tw |-> cfg.tw, d |-> cfg.d, Q |-> cfg.Q, n |-> 0, win |-> <<>>,
              U |-> [ph \in 1..cfg.L |-> [f \in 1..cfg.d |-> 0]], cnt |-> [ph \in 1..cfg.L |-> 0]]

Phase(st) == (st.n % st.L) + 1
Col(w, f) == [i \in 1..Len(w) |-> w[i][f]]

Fit(st, x) ==
  LET w == Suffix(Append(st.win, x), st.tw)
      full == Len(w) = st.tw
      ph == Phase(st)
  IN  [st EXCEPT !.n = @ + 1, !.win = w,
                 !.cnt[ph] = IF full THEN @ + 1 ELSE @,
                 !.U[ph] = IF full THEN [f \in 1..st.d |-> @[f] + st.tw * x[f] - SumSeq(Col(w, f))] ELSE @]
Apply(st, e) == IF e.op \in {"fit", "fit_transform"} THEN Fit(st, e.x) ELSE st

\* <<num, den>> of x - trend - seasonal estimate of position ph
Resid(st, ph, x, f) ==
  LET S == SumSeq(Col(st.win, f))  n == Len(st.win)  c == st.cnt[ph] IN
  IF c > 0 THEN <<c * (st.tw * x[f] - S) - st.U[ph][f], st.tw * c>>
  ELSE IF n = 0 THEN <<x[f], 1>> ELSE <<n * x[f] - S, n>>

Res(st, e) == IF e.op = "transform" THEN [f \in 1..st.d |-> Resid(st, Phase(st), e.x, f)]
              ELSE LET s2 == Fit(st, e.x) IN [f \in 1..st.d |-> Resid(s2, Phase(st), e.x, f)]

Verdict(st, e) ==
  CASE e.op \in {"new", "fit"} -> IF e.r.k = "ok" THEN "" ELSE e.op \o "-failed"
    [] e.op \in {"transform", "fit_transform"} ->
         IF Len(e.r) # st.d THEN e.op \o "-shape"
         ELSE LET v == Res(st, e) IN
              IF \A f \in 1..st.d : Near(e.r[f], v[f][1], v[f][2], st.Q, 1) THEN "" ELSE e.op \o "-residual"
    [] OTHER -> "unknown-event"
=============================================================================
