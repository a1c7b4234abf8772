-------------------------------- MODULE Post --------------------------------
(* Score postprocessors and probability calibrators.                          *)
(* cfg: kind \in {avg, max, median, z, conf, gauss}, w (0 = unlimited), Q,    *)
(*      za, zb: scale zb/za of the inputs (only for gauss with zero variance) *)
(* Operations: fit(x), transform(x), fit_transform(x).                        *)
EXTENDS Stat

Init(cfg) == [kind |-> cfg.kind, w |-> cfg.w, Q |-> cfg.Q, za |-> cfg.za, zb |-> cfg.zb, win |-> <<>>, m |-> MeterInit]

Fit(st, x) ==
  LET w2 == Append(st.win, x)
      m2 == MeterAdd(st.m, x)
  IN  IF st.w > 0 /\ Len(w2) > st.w THEN [st EXCEPT !.win = Tail(w2), !.m = MeterDel(m2, Head(w2))]
      ELSE [st EXCEPT !.win = w2, !.m = m2]

Apply(st, e) == IF e.op \in {"fit", "fit_transform"} THEN Fit(st, e.x) ELSE st

Greater(s, x) == CountIf(LAMBDA y : y > x, s)

\* n^2 * variance and n*(x - mean)
VarN(m) == m.n * m.ss - m.sum * m.sum
Dev(m, x) == m.n * x - m.sum

\* |a| / sqrt(D) > c
FarOut(a, D, c) == ~BLeq(<<Abs(a), Abs(a)>>, <<c, c, D>>)

Out(st, x, e) ==
  CASE st.m.n = 0       -> ""
    [] st.kind \in {"avg", "max", "median"} ->
         IF StatMatches(MeterGet(st.kind, 1, st.m), e.r, st.Q, 1) THEN "" ELSE "post-" \o st.kind
    [] st.kind = "z"    ->
         IF VarN(st.m) = 0 THEN ""
         ELSE IF NearRoot(e.r, Dev(st.m, x), VarN(st.m), st.Q, 2) THEN "" ELSE "post-zscore"
    [] st.kind = "conf" ->
         IF Near(e.r, Greater(st.win, x), st.m.n, st.Q, 1) THEN "" ELSE "conformal-fraction"
    [] st.kind = "gauss" ->
         \* e.r is the probability (Q units), e.z its standard normal quantile
         IF ~IsNum(e.r) \/ e.r.v < 0 \/ e.r.v > st.Q \/ ~e.in01 THEN "probability-range"
         ELSE LET zero == VarN(st.m) = 0
                  a == IF zero THEN Dev(st.m, x) * st.zb ELSE Dev(st.m, x)
                  D == IF zero THEN st.m.n * st.m.n * st.za * st.za ELSE VarN(st.m)
              IN  IF zero /\ st.za = 0 THEN ""
                  ELSE IF FarOut(a, D, 4)
                       THEN IF (a > 0 /\ e.r.v > st.Q - 1000) \/ (a < 0 /\ e.r.v < 1000) THEN "" ELSE "gaussian-far-tail"
                       ELSE IF NearRoot(e.z, a, D, 10000, 3) THEN "" ELSE "gaussian-tail"
    [] OTHER -> "unknown-kind"

Verdict(st, e) ==
  CASE e.op \in {"new", "fit"}  -> IF e.r.k = "ok" THEN "" ELSE e.op \o "-failed"
    [] e.op = "transform"       -> Out(st, e.x, e)
    [] e.op = "fit_transform"   -> Out(Fit(st, e.x), e.x, e)
    [] OTHER -> "unknown-event"

Fitted(h) == LET u == SelectSeq(h, LAMBDA o : o.op \in {"fit", "fit_transform"}) IN [i \in 1..Len(u) |-> u[i].x]
=============================================================================
