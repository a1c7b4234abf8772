-------------------------------- MODULE RRCF --------------------------------
(* pysad.models.RobustRandomCutForest on instances far apart in scale: token   *)
(* e stands for the instance 10^(9e) * direction.  A cut drawn uniformly in    *)
(* the range of such points falls below the greatest one only (but for a       *)
(* chance of about 1e-9), so the random tree over a set of them is known: the  *)
(* greatest is split off first.  The displacement of an instance is then       *)
(* decided by which instances are retained - the most recent `size`.           *)
EXTENDS Util

Init(cfg) == [size |-> cfg.size, trees |-> cfg.trees, Q |-> cfg.Q, win |-> <<>>]
Apply(st, e) == IF e.op = "fit" THEN [st EXCEPT !.win = Suffix(Append(@, e.x), st.size)] ELSE st

Uniq(s) == SetToSortSeq({ s[i] : i \in 1..Len(s) }, LAMBDA a, b : a < b)
Below(win, x) == CountIf(LAMBDA y : y < x, win)
Distinct(win) == Len(Uniq(win)) = Len(win)
Has(win, x) == \E i \in 1..Len(win) : win[i] = x

RMax(a, b) == IF a[1] * b[2] >= b[1] * a[2] THEN a ELSE b
Mass(win, x) == CountIf(LAMBDA y : y = x, win)
\* max over the ancestors of leaf x of (sibling mass / own mass): tree over the
\* sorted distinct tokens u[1..n] with masses m, the greatest split off first
Total(m, n) == SumSeq(SubSeq(m, 1, n))
RECURSIVE Cod(_, _, _, _)
Cod(u, m, n, x) == IF n = 1 THEN <<0, 1>>
                   ELSE IF u[n] = x THEN <<Total(m, n - 1), m[n]>>
                   ELSE RMax(<<m[n], Total(m, n - 1)>>, Cod(u, m, n - 1, x))
\* an instance that is not retained is inserted for the duration of the call
CoDisp(win, x) == LET w == IF Has(win, x) THEN win ELSE Append(win, x)
                      u == Uniq(w)
                  IN  Cod(u, [i \in 1..Len(u) |-> Mass(w, u[i])], Len(u), x)

\* rrcf may store equal points in separate leaves, so the shape of the tree is only
\* known for distinct ones; an instance beyond all others displaces all of them
ScoreOK(st, x, r) ==
  IF Distinct(st.win) THEN LET v == CoDisp(st.win, x) IN Near(r, v[1], v[2], st.Q, 1)
  ELSE IF Below(st.win, x) = Len(st.win) THEN Near(r, Len(st.win), 1, st.Q, 1)
  ELSE IsNum(r) /\ r.v >= 0 /\ r.v <= Len(st.win) * st.Q

Verdict(st, e) ==
  CASE e.op \in {"new", "fit"} -> IF e.r.k = "ok" THEN "" ELSE e.op \o "-failed"
    [] e.op = "score" -> IF st.win = <<>> THEN ""
                         ELSE IF ScoreOK(st, e.x, e.r) THEN "" ELSE "collusive-displacement-of-retained-points"
    [] OTHER -> "unknown-event"
=============================================================================
