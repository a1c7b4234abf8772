-------------------------------- MODULE HST --------------------------------
(* pysad.models.HalfSpaceTrees.  Feature f ranges over [0, cfg.range[f]] in    *)
(* integer units; every midpoint needed is an integer (range divisible by      *)
(* 2^depth).  The random split features are hidden: the state keeps the set of *)
(* forests (tuples of trees; a tree maps heap-numbered inner nodes to split    *)
(* features) compatible with every score observed so far.                      *)
(* cfg: w, depth, trees, range, mult (equal trees counted mult times; used     *)
(*      with one feature, where all trees are equal), init (initial window)    *)
EXTENDS Util

Inner(depth) == 1..(Pow(2, depth) - 1)
Trees(cfg) == IF Len(cfg.range) = 1 THEN { <<>> } ELSE [Inner(cfg.depth) -> 1..Len(cfg.range)]
Hidden(cfg) == IF cfg.trees = 1 THEN { <<t>> : t \in Trees(cfg) }
               ELSE { <<t, u>> : t \in Trees(cfg), u \in Trees(cfg) }

\* leaf-ward path of x in tree t: sequence of heap numbers from the root (1)
RECURSIVE PathFrom(_, _, _, _, _, _)
PathFrom(t, x, lo, hi, node, k) ==
  IF k = 0 THEN <<node>>
  ELSE LET f == IF t = <<>> THEN 1 ELSE t[node]
           m == (lo[f] + hi[f]) \div 2
       IN  IF x[f] > m THEN <<node>> \o PathFrom(t, x, [lo EXCEPT ![f] = m], hi, 2 * node + 1, k - 1)
           ELSE <<node>> \o PathFrom(t, x, lo, [hi EXCEPT ![f] = m], 2 * node, k - 1)
Path(t, x, depth, range) == PathFrom(t, x, [i \in 1..Len(range) |-> 0], range, 1, depth)

\* declarative score of one tree: SUM over levels of 2^level * (instances of
\* the reference window in the same node)
TreeScore(t, x, ref, depth, range) ==
  LET p == Path(t, x, depth, range)
      q == [j \in 1..Len(ref) |-> Path(t, ref[j], depth, range)]
  IN  SumSeq([k \in 1..(depth + 1) |-> Pow(2, k - 1) * CountIf(LAMBDA y : y[k] = p[k], q)])

Score(st, h, x) == st.mult * SumSeq([i \in 1..Len(h) |-> TreeScore(h[i], x, st.ref, st.depth, st.range)])

AddPoint(st, x) ==
  LET c == Append(st.cur, x)
  IN  IF st.n % st.w = st.w - 1 THEN [st EXCEPT !.n = @ + 1, !.ref = c, !.cur = <<>>]
      ELSE IF st.n < st.w THEN [st EXCEPT !.n = @ + 1, !.ref = c, !.cur = c]
      ELSE [st EXCEPT !.n = @ + 1, !.cur = c]

Init(cfg) == FoldLeft(AddPoint,
               [w |-> cfg.w, depth |-> cfg.depth, range |-> cfg.range, mult |-> cfg.mult, n |-> 0,
                cur |-> <<>>, ref |-> <<>>, B |-> Hidden(cfg)], cfg.init)

Explains(st, h, x, r) == IsNum(r) /\ r.v = -Score(st, h, x)

Apply(st, e) ==
  CASE e.op = "fit"   -> AddPoint(st, e.x)
    [] e.op = "score" -> [st EXCEPT !.B = { h \in st.B : Explains(st, h, e.x, e.r) }]
    [] OTHER          -> st

Verdict(st, e) ==
  CASE e.op \in {"new", "fit"} -> IF e.r.k = "ok" THEN "" ELSE e.op \o "-failed"
    [] e.op = "score" -> IF \E h \in st.B : Explains(st, h, e.x, e.r) THEN "" ELSE "half-space-mass-score"
    [] OTHER -> "unknown-event"
=============================================================================
