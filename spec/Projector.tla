------------------------------ MODULE Projector ------------------------------
(* Projectors: one linear map R (num_components x dim), learned here from the  *)
(* projections of unit vectors, then fixed: every later projection of x must   *)
(* be R x, whatever happened in between.  Stream-hash: entries in {-c, 0, c},  *)
(* the same map for every projector with the same parameters and, per feature, *)
(* for every dimension - so its columns are shared between objects and dims.   *)
EXTENDS Util

\* cols: learned columns, indexed by feature; <<>> = not seen yet.  Objects of a
\* trace are numbered; hashed projectors of equal parameters share cols.
Init(cfg) == [k |-> cfg.k, kind |-> cfg.kind, pct |-> cfg.pct, Q |-> cfg.Q, hash |-> cfg.hash, c |-> cfg.c, dim |-> cfg.dim,
              cols |-> [o \in 1..cfg.objs |-> [f \in 1..cfg.maxdim |-> <<>>]]]

Key(st, e) == IF st.hash THEN 1 ELSE e.o
IsUnit(x) == /\ \E f \in 1..Len(x) : x[f] = 1
             /\ \A f, g \in 1..Len(x) : f # g => x[f] = 0 \/ x[g] = 0
             /\ \A f \in 1..Len(x) : x[f] \in {0, 1}
UnitOf(x) == CHOOSE f \in 1..Len(x) : x[f] = 1
Vals(r) == [i \in 1..Len(r) |-> r[i].v]

Apply(st, e) ==
  IF e.op = "transform" /\ IsUnit(e.x) THEN [st EXCEPT !.cols[Key(st, e)][UnitOf(e.x)] = Vals(e.r)] ELSE st

Known(st, e) == \A f \in 1..Len(e.x) : e.x[f] # 0 => st.cols[Key(st, e)][f] # <<>>
Tol(x) == 3 + SumSeq([f \in 1..Len(x) |-> Abs(x[f])])
Linear(st, e) ==
  Known(st, e) =>
    \A i \in 1..st.k :
      Abs(e.r[i].v - SumSeq([f \in 1..Len(e.x) |-> IF e.x[f] = 0 THEN 0 ELSE e.x[f] * st.cols[Key(st, e)][f][i]])) <= Tol(e.x)
\* what the learned map looks like as a whole: for N entries
\*   sparse kinds: about pct per cent non-zero, both signs equally often (6 sigma)
\*   gauss: mean square 1/k (8 sigma)
\*   with 64 features or more, no two components share their coefficients
Cols(st, o) == SelectSeq(st.cols[o], LAMBDA c : c # <<>>)
Flat(k, cs) == [i \in 1..(k * Len(cs)) |-> cs[((i - 1) \div k) + 1][((i - 1) % k) + 1]]
Within(x, v) == x <= 0 \/ x * x <= v
Sparse(st, o, f) ==
  LET n == Len(f) pos == CountIf(LAMBDA v : v > 2, f) neg == CountIf(LAMBDA v : v < -2, f) nz == pos + neg
  IN /\ Within(Abs(100 * nz - n * st.pct[o]) - 300 - n, 36 * n * st.pct[o] * (100 - st.pct[o]))
     /\ Within(Abs(pos - neg) - 3, 36 * nz)
Hundredth(v) == (v + 5000) \div 10000
Gaussian(st, f) == LET n == Len(f) s == SumSeq([i \in 1..n |-> Hundredth(f[i]) * Hundredth(f[i])])
                   IN Within(Abs(st.k * s - 10000 * n) \div 10000 - 3, 128 * n)
Distinct(st, cs) == Len(cs) < 64 \/ \A i, j \in 1..st.k : i = j \/ \E f \in 1..Len(cs) : Abs(cs[f][i] - cs[f][j]) > 2
Census(st, o) == LET cs == Cols(st, o) f == Flat(st.k, cs) IN
  IF Len(cs) < 20 \/ Len(cs) * st.k < 64 THEN ""
  ELSE IF ~Distinct(st, cs) THEN "components-are-different"
  ELSE IF st.kind = "gauss" THEN IF Gaussian(st, f) THEN "" ELSE "coefficients-of-unit-variance"
  ELSE IF Sparse(st, o, f) THEN "" ELSE "density-of-the-map"

Entry(st, o, v) == \E s \in {-1, 0, 1} : Abs(v - s * st.c[o]) <= 2

Verdict(st, e) ==
  CASE e.op \in {"new", "fit"} -> IF e.r.k = "ok" THEN "" ELSE e.op \o "-failed"
    [] e.op = "transform" ->
         IF Len(e.r) # st.k \/ \E i \in 1..Len(e.r) : ~IsNum(e.r[i]) THEN "projection-shape"
         ELSE IF ~Linear(st, e) THEN "one-fixed-linear-map"
         ELSE IF st.kind # "gauss" /\ IsUnit(e.x) /\ \E i \in 1..st.k : ~Entry(st, Key(st, e), e.r[i].v) THEN "sparse-coefficients"
         ELSE ""
    [] e.op = "census" -> Census(st, IF st.hash THEN 1 ELSE e.o)
    [] OTHER -> "unknown-event"
=============================================================================
