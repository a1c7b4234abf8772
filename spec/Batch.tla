-------------------------------- MODULE Batch --------------------------------
(* pysad.core: the batch methods of models, postprocessors and transformers    *)
(* are folds of their one-at-a-time methods.  The component is user-defined:   *)
(* its hidden state h and its results are those of the small deterministic     *)
(* machine below, and it records every call it receives.                       *)
(*   FitH    state after fitting instance code x with label y (-1: no label)   *)
(*   Out     result of scoring / transforming x in state h, component j        *)
(*   cfg.ovr the component overrides the combined fit-and-score method         *)
(*   cfg.boom  instance code on which the component raises an error            *)
EXTENDS Util

M == 1009
Code(v) == SumSeq([j \in 1..Len(v) |-> v[j] * (2 * j - 1)])
Pos(a) == ((a % M) + M) % M
FitH(h, x, y) == Pos(h * 7 + x * 3 + y * 31 + 1)
Out(h, x, j) == Pos(h + 5 * x + 101 * (j - 1))
FsH(h, x, y) == Pos(h * 11 + x * 5 + y * 17 + 2)
FsOut(h, x, j) == Pos(h + 2 * x + 1 + 103 * (j - 1))

Init(cfg) == [kind |-> cfg.kind, ovr |-> cfg.ovr, boom |-> cfg.boom, dims |-> cfg.dims, h |-> 0]

Call(m, v, y) == [m |-> m, x |-> v, y |-> y]
Dims(st, v) == IF st.kind # "trans" THEN 1 ELSE IF st.dims > 0 THEN st.dims ELSE Len(v)

\* one step of method m on instance v with label y, from accumulator a
Step(st, a, m, v, y) ==
  IF a.err THEN a
  ELSE LET x == Code(v) d == Dims(st, v) IN
    CASE m = "fit" ->
           IF x = st.boom THEN [a EXCEPT !.err = TRUE, !.calls = Append(@, Call("fit", v, y))]
           ELSE [a EXCEPT !.h = FitH(a.h, x, y), !.calls = Append(@, Call("fit", v, y))]
      [] m = "read" ->
           IF x = st.boom THEN [a EXCEPT !.err = TRUE, !.calls = Append(@, Call("read", v, -1))]
           ELSE [a EXCEPT !.calls = Append(@, Call("read", v, -1)),
                          !.outs = Append(@, [j \in 1..d |-> Out(a.h, x, j)])]
      [] m = "fs" /\ st.ovr ->
           IF x = st.boom THEN [a EXCEPT !.err = TRUE, !.calls = Append(@, Call("fs", v, y))]
           ELSE LET h2 == FsH(a.h, x, y) IN
                [a EXCEPT !.h = h2, !.calls = Append(@, Call("fs", v, y)),
                          !.outs = Append(@, [j \in 1..d |-> FsOut(h2, x, j)])]
      [] OTHER ->
           IF x = st.boom THEN [a EXCEPT !.err = TRUE, !.calls = Append(@, Call("fit", v, y))]
           ELSE LET h2 == FitH(a.h, x, y) IN
                [a EXCEPT !.h = h2, !.calls = Append(Append(@, Call("fit", v, y)), Call("read", v, -1)),
                          !.outs = Append(@, [j \in 1..d |-> Out(h2, x, j)])]

RECURSIVE Fold(_, _, _, _, _, _)
Fold(st, a, m, X, y, i) ==
  IF i > Len(X) THEN a
  ELSE Fold(st, Step(st, a, m, X[i], IF Len(y) > 0 THEN y[i] ELSE -1), m, X, y, i + 1)

Run(st, e) == Fold(st, [h |-> st.h, calls |-> <<>>, outs |-> <<>>, err |-> FALSE], e.m, e.X, e.y, 1)

Apply(st, e) == IF e.m = "new" THEN st ELSE [st EXCEPT !.h = Run(st, e).h]

Verdict(st, e) ==
  IF e.m = "new" THEN (IF e.k = "ok" THEN "" ELSE "construction-failed")
  ELSE LET r == Run(st, e) IN
    IF e.calls # r.calls THEN "each-instance-once-in-order-with-its-label"
    ELSE IF ~e.kept THEN "batch-method-modified-its-input"
    ELSE IF r.err THEN (IF e.k = "boom" THEN "" ELSE "error-of-the-component-lost")
    ELSE IF e.k # "ok" THEN "method-failed"
    ELSE IF e.m = "fit" THEN (IF e.self THEN "" ELSE "fit-returns-the-object")
    ELSE IF e.outs # r.outs THEN "result-i-belongs-to-instance-i"
    ELSE IF e.batch /\ ~e.f64 THEN "batch-result-is-a-float64-array"
    ELSE ""
=============================================================================
