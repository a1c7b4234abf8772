----------------------------- MODULE RelEntropy -----------------------------
(* pysad.models.RelativeEntropy.  Instances are given in half steps above      *)
(* min_val.  cfg.ln[n] = ln(n) in units of 1e-5, cfg.T the threshold likewise. *)
EXTENDS Util

Init(cfg) == [W |-> cfg.W, N |-> cfg.N, T |-> cfg.T, ln |-> cfg.ln, win |-> <<>>, P |-> <<>>]

\* bin 1..N of an instance h half-steps above the minimum
Bin(N, h) == MinI((h + 1) \div 2, N - 1) + 1
Hist(N, w) == [b \in 1..N |-> CountIf(LAMBDA h : Bin(N, h) = b, w)]

Full(st) == Len(st.win) = st.W
Apply(st, e) ==
  IF e.op = "fit"
  THEN LET w == Suffix(Append(st.win, e.h), st.W)
       IN  [st EXCEPT !.win = w, !.P = IF @ = <<>> /\ Len(w) = st.W THEN Hist(st.N, w) ELSE @]
  ELSE st

\* 2 W KL(current || first), in units of 1e-5
Infinite(st) == LET H == Hist(st.N, st.win) IN \E b \in 1..st.N : H[b] > 0 /\ st.P[b] = 0
G(st) == LET H == Hist(st.N, st.win)
         IN  2 * SumSeq([b \in 1..st.N |-> IF H[b] = 0 THEN 0 ELSE H[b] * (st.ln[H[b]] - st.ln[st.P[b]])])
Margin(st) == 2 * st.W + 20

ScoreOK(st, r) ==
  IF ~Full(st) THEN IsNum(r) /\ r.v = 0
  ELSE IF Infinite(st) THEN IsNum(r) /\ r.v = 0 - 1000
  ELSE /\ IsNum(r) /\ r.v \in {0, 0 - 1000}
       /\ G(st) < st.T - Margin(st) => r.v = 0
       /\ G(st) > st.T + Margin(st) => r.v = 0 - 1000

Verdict(st, e) ==
  CASE e.op \in {"new", "fit"} -> IF e.r.k = "ok" THEN "" ELSE e.op \o "-failed"
    [] e.op = "score" -> IF ScoreOK(st, e.r) THEN "" ELSE "current-window-against-first-full-window"
    [] OTHER -> "unknown-event"
=============================================================================
