--------------------------------- MODULE ESD ---------------------------------
(* pysad.models.SeasonalESD / SeasonalHybridESD.  Values are integers; the     *)
(* seasonal component of a window (given with the event, the driver's STL is   *)
(* integer valued) is subtracted together with the window median, and          *)
(* generalized ESD runs on the residuals in exact arithmetic.  cfg.lam[i] is   *)
(* the i-th critical value times 10^4.                                         *)
EXTENDS Util

Init(cfg) == [W |-> cfg.W, k |-> cfg.k, hybrid |-> cfg.hybrid, lam |-> cfg.lam, Q |-> cfg.Q, win |-> <<>>]

Push(st, x) == Suffix(Append(st.win, x), st.W)
Apply(st, e) == IF e.op \in {"fit", "fit_score"} THEN [st EXCEPT !.win = Push(st, e.x)] ELSE st

\* twice the modified STL residual X - seasonal - median(X)
Resid2(w, seas) == LET m == Median2(w) IN [i \in 1..Len(w) |-> 2 * w[i] - 2 * seas[i] - m]

Pick(R, rem) == [j \in 1..Len(rem) |-> R[rem[j]]]
Drop(rem, j) == SubSeq(rem, 1, j - 1) \o SubSeq(rem, j + 1, Len(rem))

\* A statistic is a pair of factor lists <<num, den>>: S-ESD its square, hybrid itself
Dev(h, v, j) == IF h THEN Abs(2 * v[j] - Median2(v)) ELSE Abs(Len(v) * v[j] - SumSeq(v))
VarN(v) == Len(v) * SumSqSeq(v) - SumSeq(v) * SumSeq(v)
Mad4(v) == LET m == Median2(v) IN Median2([j \in 1..Len(v) |-> Abs(2 * v[j] - m)])
NoScale(h, v) == IF h THEN Mad4(v) = 0 ELSE VarN(v) = 0
Stat(h, v, j) ==
  LET d == Dev(h, v, j)  m == Len(v) IN
  IF h THEN <<<<10000, d>>, <<7413, Mad4(v)>>>>
  ELSE <<<<d, d, m - 1>>, <<m, VarN(v)>>>>

Exceeds(h, s, lam) ==
  IF h THEN BCmp(BProd(Append(s[1], 10000)), BProd(Append(s[2], lam))) > 0
  ELSE BCmp(BProd(s[1] \o <<10000, 10000>>), BProd(s[2] \o <<lam, lam>>)) > 0
\* {TRUE}, {FALSE} or both when within rounding of the critical value
Exc(h, s, lam) == { Exceeds(h, s, lam - 2), Exceeds(h, s, lam + 2) }

\* set of possible outcomes <<statistic>> / <<>> (newest not selected) of the
\* steps i..k; hit: statistic of the newest if already removed, sel: a step from
\* its removal on exceeded its critical value.  Ties may be broken either way.
RECURSIVE Steps(_, _, _, _, _, _)
Steps(st, R, rem, i, hit, sel) ==
  LET v == Pick(R, rem)
      stop == IF hit # <<>> /\ sel THEN { hit } ELSE { <<>> }
  IN  IF i > st.k THEN stop
      ELSE IF NoScale(st.hybrid, v) THEN stop
      ELSE LET mx == MaxSeq([j \in 1..Len(v) |-> Dev(st.hybrid, v, j)])
               T  == { j \in 1..Len(v) : Dev(st.hybrid, v, j) = mx }
               \* one representative per value, and the newest
               C  == { j \in T : rem[j] = Len(R) \/ \A q \in T : (q < j => v[q] # v[j]) }
           IN  UNION { LET h2 == IF rem[j] = Len(R) THEN <<Stat(st.hybrid, v, j)>> ELSE hit
                       IN  UNION { Steps(st, R, Drop(rem, j), i + 1, h2, sel \/ (x /\ h2 # <<>>)) :
                                   x \in Exc(st.hybrid, Stat(st.hybrid, v, j), st.lam[i]) }
                       : j \in C }

Outcomes(st, w, seas) == Steps(st, Resid2(w, seas), [i \in 1..Len(w) |-> i], 1, <<>>, FALSE)

StatNear(st, s, r) ==
  /\ IsNum(r) /\ r.v > 0
  /\ LET lo == MaxI(r.v - 2, 0)  hi == r.v + 2 IN
     IF st.hybrid THEN BLeq(<<lo>> \o s[2], <<st.Q>> \o s[1]) /\ BLeq(<<st.Q>> \o s[1], <<hi>> \o s[2])
     ELSE BLeq(<<lo, lo>> \o s[2], <<st.Q, st.Q>> \o s[1]) /\ BLeq(<<st.Q, st.Q>> \o s[1], <<hi, hi>> \o s[2])

ScoreOK(st, w, e) ==
  IF Len(w) < st.W THEN IsNum(e.r) /\ e.r.v = 0
  ELSE \E o \in Outcomes(st, w, e.seas) :
         IF o = <<>> THEN IsNum(e.r) /\ e.r.v = 0 ELSE StatNear(st, o[1], e.r)

Verdict(st, e) ==
  CASE e.op \in {"new", "fit"} -> IF e.r.k = "ok" THEN "" ELSE e.op \o "-failed"
    [] e.op \in {"score", "fit_score"} ->
         IF ScoreOK(st, Push(st, e.x), e) THEN "" ELSE e.op \o "-esd-statistic-of-newest-value"
    [] OTHER -> "unknown-event"
=============================================================================
