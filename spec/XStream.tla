------------------------------ MODULE XStream ------------------------------
(* pysad.models.xStream in the projected space.  Projected coordinates are    *)
(* integers y; the width of feature f is delta_f, and qf[f] = 4/delta_f is    *)
(* an integer, so that the position of y in units of a quarter cell is        *)
(* q = qf*y.  A chain hides the feature picked at each level (fs) and the     *)
(* quarter b of its random shift (shift in [b/4, (b+1)/4) cells); the index   *)
(* of q in a feature picked for the c-th time is (2^(c-1)*q + b) \div 4.      *)
(* The state keeps the set of hidden chains that explain every score so far.  *)
(* cfg: w, depth, K (components), chains (1 or 2), aligned (all q multiples   *)
(* of 4: indices do not depend on b, all chains equal, K = 1), act (which     *)
(* projected features vary at all), far (the varying feature carries a large   *)
(* common offset, a multiple of every cell width: cells of equal widths move   *)
(* together, cells of different widths never coincide).                        *)
EXTENDS Util

\* features that never vary need no shift
Shifts(cfg) == IF cfg.aligned THEN { [f \in 1..cfg.K |-> 0] }
               ELSE { g \in [1..cfg.K -> 0..3] : \A f \in 1..cfg.K : ~cfg.act[f] => g[f] = 0 }
Chains(cfg) == { [fs |-> f, b |-> b] : f \in [1..cfg.depth -> 1..cfg.K], b \in Shifts(cfg) }
Hidden(cfg) == IF cfg.chains = 1 \/ cfg.aligned THEN { <<c>> : c \in Chains(cfg) }
               ELSE { <<c, d>> : c \in Chains(cfg), d \in Chains(cfg) }

\* how often feature f has been picked within the first d levels
Picks(fs, d, f) == Cardinality({ i \in 1..d : fs[i] = f })
\* level-d cell of the quarter-cell position vector q
Cell(c, q, d) == [f \in 1..Len(q) |->
                   LET k == Picks(c.fs, d, f)
                   IN  IF k = 0 THEN 0 ELSE (Pow(2, k - 1) * q[f] + c.b[f]) \div 4]
CountAt(c, q, d, ref) == LET cx == Cell(c, q, d) IN CountIf(LAMBDA p : Cell(c, p, d) = cx, ref)

\* far from the origin, counts made with other widths are in other cells
Meets(st, c, d) == st.far => \A f \in 1..Len(st.qf) : (st.act[f] /\ Picks(c.fs, d, f) > 0) => st.refqf[f] = st.qf[f]

\* 2^(-score) of one chain: min over levels of 2^d * (1 + count)
ChainVal(st, c, q) ==
  LET v == [d \in 1..st.depth |-> Pow(2, d) * (1 + IF Meets(st, c, d) THEN CountAt(c, q, d, st.ref) ELSE 0)] IN MinSeq(v)
Prod(st, h, q) == IF Len(h) = 1 THEN ChainVal(st, h[1], q)
                  ELSE ChainVal(st, h[1], q) * ChainVal(st, h[2], q)

QPos(st, y) == [f \in 1..Len(y) |-> st.qf[f] * y[f]]

\* widths from the completed window: range R -> delta = R/2 -> qf = 8/R; R = 0 -> delta = 1
NewQf(win) == [f \in 1..Len(win[1]) |->
                LET xs == [i \in 1..Len(win) |-> win[i][f]]
                    R  == MaxSeq(xs) - MinSeq(xs)
                IN  IF R = 0 THEN 4 ELSE 8 \div R]

Init(cfg) == [far |-> cfg.far, act |-> cfg.act, refqf |-> [f \in 1..cfg.K |-> 8], w |-> cfg.w, depth |-> cfg.depth, n |-> 0, qf |-> [f \in 1..cfg.K |-> 8],
              win |-> <<>>, cur |-> <<>>, ref |-> <<>>, B |-> Hidden(cfg)]

Fit(st, y) ==
  LET wn == Append(st.win, y)
      c  == Append(st.cur, QPos(st, y))
      s1 == [st EXCEPT !.n = @ + 1]
  IN  IF s1.n % st.w = 0
      THEN [s1 EXCEPT !.ref = c, !.cur = <<>>, !.win = <<>>, !.refqf = st.qf, !.qf = NewQf(wn)]
      ELSE [s1 EXCEPT !.ref = IF s1.n < st.w THEN c ELSE @, !.cur = c, !.win = wn]

Explains(st, h, y, r) == IsNum(r) /\ r.v = Prod(st, h, QPos(st, y))

Apply(st, e) ==
  CASE e.op = "fit"   -> Fit(st, e.y)
    [] e.op = "score" -> [st EXCEPT !.B = { h \in st.B : Explains(st, h, e.y, e.r) }]
    [] OTHER          -> st

Verdict(st, e) ==
  CASE e.op \in {"new", "fit"} -> IF e.r.k = "ok" THEN "" ELSE e.op \o "-failed"
    [] e.op = "score" -> IF \E h \in st.B : Explains(st, h, e.y, e.r) THEN "" ELSE "half-space-count-score"
    [] OTHER -> "unknown-event"
=============================================================================
