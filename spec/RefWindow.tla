------------------------------ MODULE RefWindow ------------------------------
(* pysad.models.integrations: ReferenceWindowModel (and IForestASD, OneFit).  *)
(* Instances and labels are tokens; an element is <<x, y>> (y = 0 unlabelled).*)
(* cfg: w, s, init (sequence of elements), hasInit, lab (labels supplied),    *)
(*      onefit (never retrain).                                               *)
(* Every call reports the detector trainings it caused: a sequence of records *)
(* [X, y, hasY, fresh, kw] as received by the wrapped detector.               *)
EXTENDS Util

Init(cfg) == [w |-> cfg.w, s |-> cfg.s, hasInit |-> cfg.hasInit, lab |-> cfg.lab, onefit |-> cfg.onefit,
              cur |-> <<>>, ref |-> IF cfg.hasInit THEN cfg.init ELSE <<>>,
              ver |-> IF cfg.hasInit THEN 1 ELSE 0]

\* one fit_partial, shaped like the code: grow, slide, or wait
Grow(st, c)  == ~st.hasInit /\ Len(c) < st.w /\ Len(st.ref) < st.w
Slide(st, c) == Len(c) % st.s = 0
Apply(st, e) ==
  IF e.op # "fit" \/ st.onefit THEN st
  ELSE LET c == Append(st.cur, <<e.x, e.y>>)
       IN  IF Grow(st, c) THEN [st EXCEPT !.cur = c, !.ref = c, !.ver = @ + 1]
           ELSE IF Slide(st, c) THEN [st EXCEPT !.cur = <<>>, !.ref = Suffix(st.ref \o c, st.w), !.ver = @ + 1]
           ELSE [st EXCEPT !.cur = c]

Xs(s) == [i \in 1..Len(s) |-> s[i][1]]
Ys(s) == [i \in 1..Len(s) |-> s[i][2]]

TrainingVerdict(st, f, ref) ==
  IF Xs(ref) # f.X THEN "training-instances"
  ELSE IF st.lab # f.hasY THEN "labels-presence"
  ELSE IF st.lab /\ Ys(ref) # f.y THEN "training-labels"
  ELSE IF ~f.fresh THEN "detector-not-fresh"
  ELSE IF ~f.kw THEN "detector-arguments" ELSE ""

\* trainings caused by moving from st to st2
FitsVerdict(st, st2, fits) ==
  IF st2.ver = st.ver THEN (IF fits = <<>> THEN "" ELSE "unexpected-retraining")
  ELSE IF Len(fits) = 0 THEN "missing-retraining"
  ELSE IF Len(fits) > 1 THEN "retrained-more-than-once"
  ELSE TrainingVerdict(st, fits[1], st2.ref)

\* recorded by real detectors instead: ranges [lo, hi] of the element sequence
\* whose freshly trained detector reproduces the score
TrainRange(st) == <<Xs(st.ref)[1], Xs(st.ref)[Len(st.ref)]>>

Verdict(st, e) ==
  CASE e.op = "new" -> IF e.r.k # "ok" THEN "construction-failed"
                       ELSE IF e.blind THEN ""
                       ELSE IF st.hasInit THEN (IF Len(e.fits) = 1 THEN TrainingVerdict(st, e.fits[1], st.ref) ELSE "initial-training")
                       ELSE IF e.fits = <<>> THEN "" ELSE "unexpected-training"
    [] e.op = "fit" -> IF e.r.k # "ok" THEN "fit-failed"
                       ELSE IF e.blind THEN "" ELSE FitsVerdict(st, Apply(st, e), e.fits)
    [] e.op = "score" ->
         IF st.ver = 0 THEN ""
         ELSE IF e.fits # <<>> THEN "trained-while-scoring"
         ELSE IF e.r.k # "num" THEN "score-failed"
         ELSE IF e.r.v # 1000 * st.ver + e.x THEN "score-of-wrong-detector-or-instance"
         ELSE IF e.held # Xs(st.ref) THEN "training-data-changed-after-training" ELSE ""
    [] e.op = "rscore" ->
         IF st.ver = 0 THEN ""
         ELSE IF e.r.k # "num" THEN "score-failed"
         ELSE IF \E i \in 1..Len(e.match) : e.match[i] = TrainRange(st) THEN "" ELSE "score-of-wrong-training-window"
    [] OTHER -> "unknown-event"

(* ---- declarative: the schedule and the training sets ---- *)
Seen(cfg, h) == (IF cfg.hasInit THEN cfg.init ELSE <<>>) \o [i \in 1..Len(h) |-> <<h[i].x, h[i].y>>]
\* number of streamed instances at the first boundary without initial window
FirstB(cfg) == ((cfg.w + cfg.s - 1) \div cfg.s) * cfg.s
RetrainAt(cfg, n) ==
  IF cfg.hasInit THEN n % cfg.s = 0
  ELSE n < cfg.w \/ (n >= FirstB(cfg) /\ n % cfg.s = 0)
LastTrain(cfg, n) == LET T == { k \in 1..n : RetrainAt(cfg, k) }
                     IN  IF T = {} THEN 0 ELSE CHOOSE k \in T : \A j \in T : j <= k
TrainedOn(cfg, h) ==
  LET k == LastTrain(cfg, Len(h))
  IN  IF k = 0 THEN (IF cfg.hasInit THEN cfg.init ELSE <<>>)
      ELSE Suffix(Seen(cfg, SubSeq(h, 1, k)), cfg.w)
=============================================================================
