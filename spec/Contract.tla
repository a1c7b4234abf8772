------------------------------ MODULE Contract ------------------------------
(* What every public call promises about its result, whatever the component    *)
(* computes.                                                                   *)
(*   fitting   (fit_partial, fit, update, remove)      the component itself    *)
(*   scoring   (score_partial, fit_score_partial)      one number, in the range *)
(*             of the model                                                    *)
(*   transforming   a vector: num_components entries for projectors, one for   *)
(*             ensemblers, as many as the instance has for the others          *)
(*   postprocessing, get     one number                                        *)
(* cfg = [role, range, dim, out, self]: dim entries per instance, out expected *)
(* entries per result (-1: dim), self: whether fitting returns the component.  *)
(* A recorded number is [k, s, u, i]: kind (num, nan, inf, ninf, other), sign  *)
(* of the value, sign of value - 1, and the value itself if it is a small      *)
(* integer (else 99).                                                          *)
EXTENDS Util
Init(cfg) == [c |-> cfg, n |-> 0]

Fitting(e) == e.op \in {"fit", "fitbatch", "remove"}
Added(e) == CASE e.op \in {"fit", "fs"} -> 1 [] e.op \in {"fitbatch", "fsbatch", "chain"} -> e.n [] e.op = "remove" -> -1 [] OTHER -> 0
Apply(st, e) == [st EXCEPT !.n = @ + Added(e)]

Finite(v) == v.k = "num"
InRange(g, v) ==
  CASE g = "free" -> v.k # "other"                     \* a number, possibly not finite
    [] g = "finite" -> Finite(v)
    [] g = "unit" -> Finite(v) /\ v.s >= 0 /\ v.u <= 0
    [] g = "halfopen" -> Finite(v) /\ v.s >= 0 /\ v.u < 0
    [] g = "nonneg" -> Finite(v) /\ v.s >= 0
    [] g = "nonpos" -> Finite(v) /\ v.s <= 0
    [] g = "flag" -> Finite(v) /\ v.i \in {0, -1}
    [] g = "count" -> Finite(v) /\ v.i >= 0
    [] g = "half" -> Finite(v) /\ v.s > 0 /\ v.u < 0

Entries(st) == IF st.c.out = -1 THEN st.c.dim ELSE st.c.out
\* number of values in the result of a reading call on one instance / on n instances
Size(st, e) == IF e.op \in {"read", "fs", "chain"} THEN Entries(st) ELSE e.n * Entries(st)
Verdict(st, e) ==
  CASE e.op = "new" -> IF e.r = "ok" THEN "" ELSE "construction-failed"
    [] e.r # "ok" -> "call-failed"
    [] Fitting(e) -> IF st.c.self => e.self THEN "" ELSE "fitting-returns-the-component"
    [] e.size # Size(st, e) -> "result-has-the-promised-size"
    [] e.nd > (IF e.op \in {"read", "fs", "chain"} THEN 1 ELSE 2) -> "result-has-the-promised-shape"
    [] \E i \in 1..Len(e.v) : ~InRange(st.c.range, e.v[i]) -> "result-in-the-promised-range"
    [] OTHER -> ""
=============================================================================
