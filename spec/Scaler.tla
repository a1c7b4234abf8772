------------------------------- MODULE Scaler -------------------------------
(* Instance scalers: a fitted / transformed history is state the specification *)
(* deliberately does not use.  Instances are integer vectors.  cfg.p is the    *)
(* order of the norm (0 stands for infinity).                                  *)
EXTENDS Util

Init(cfg) == [kind |-> cfg.kind, p |-> cfg.p, Q |-> cfg.Q, n |-> 0]
Apply(st, e) == [st EXCEPT !.n = @ + 1]

VarN(x) == Len(x) * SumSqSeq(x) - SumSeq(x) * SumSeq(x)
AbsSeq(x) == [i \in 1..Len(x) |-> Abs(x[i])]
Rep(a, k) == [i \in 1..k |-> a]
PowSum(x, p) == SumSeq([i \in 1..Len(x) |-> Pow(Abs(x[i]), p)])

Defined(st, x) == CASE st.kind = "std" -> VarN(x) > 0
                    [] st.kind = "norm" -> \E i \in 1..Len(x) : x[i] # 0
                    [] OTHER -> TRUE

EntryOK(st, x, i, r) ==
  CASE st.kind = "id"  -> IsNum(r) /\ r.v = st.Q * x[i]
    [] st.kind = "std" -> NearRoot(r, Len(x) * x[i] - SumSeq(x), VarN(x), st.Q, 2)
    [] st.kind = "norm" ->
         IF st.p = 0 THEN Near(r, x[i], MaxSeq(AbsSeq(x)), st.Q, 1)
         ELSE /\ IsNum(r)
              /\ LET m == Abs(r.v)  lo == MaxI(m - 2, 0)  hi == m + 2  S == PowSum(x, st.p) IN
                 /\ BLeq(Append(Rep(lo, st.p), S), Rep(st.Q, st.p) \o Rep(Abs(x[i]), st.p))
                 /\ BLeq(Rep(st.Q, st.p) \o Rep(Abs(x[i]), st.p), Append(Rep(hi, st.p), S))
              /\ (Abs(r.v) > 2 => (r.v > 0) = (x[i] > 0))

Verdict(st, e) ==
  CASE e.op \in {"new", "fit"} -> IF e.r.k # "ok" THEN e.op \o "-failed"
                                  ELSE IF e.kept THEN "" ELSE e.op \o "-modified-its-input"
    [] e.op = "transform" ->
         IF ~e.kept THEN "transform-modified-its-input"
         ELSE IF ~Defined(st, e.x) THEN ""
         ELSE IF Len(e.r) # Len(e.x) THEN "transform-shape"
         ELSE IF \A i \in 1..Len(e.x) : EntryOK(st, e.x, i, e.r[i]) THEN "" ELSE st.kind \o "-scaled-instance"
    [] OTHER -> "unknown-event"
=============================================================================
