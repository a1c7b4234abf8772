------------------------------ MODULE Ensembler ------------------------------
(* pysad.transform.ensemble: the combined score of a timestep depends on that  *)
(* timestep's scores only.  Static buckets are a hidden partition, so the      *)
(* results for all partitions into equal buckets are allowed.                  *)
EXTENDS Util

Init(cfg) == [kind |-> cfg.kind, w |-> cfg.w, b |-> cfg.b, Q |-> cfg.Q, n |-> 0]
Apply(st, e) == [st EXCEPT !.n = @ + 1]

SetSum(s, B) == SumSeq([i \in 1..Len(s) |-> IF i \in B THEN s[i] ELSE 0])
SetMax(s, B) == LET i == CHOOSE i \in B : \A j \in B : s[j] <= s[i] IN s[i]
SetMin(T) == CHOOSE i \in T : \A j \in T : i <= j
Buckets(T, k) == { B \in SUBSET T : Cardinality(B) = k /\ SetMin(T) \in B }

RECURSIVE AomSums(_, _, _)
AomSums(s, T, k) == IF T = {} THEN {0}
                    ELSE UNION { { SetMax(s, B) + v : v \in AomSums(s, T \ B, k) } : B \in Buckets(T, k) }
RECURSIVE MoaMaxs(_, _, _)
MoaMaxs(s, T, k) == UNION { IF B = T THEN { SetSum(s, B) }
                            ELSE { MaxI(SetSum(s, B), v) : v \in MoaMaxs(s, T \ B, k) } : B \in Buckets(T, k) }

\* set of allowed results <<num, den>>
Allowed(st, s) ==
  LET n == Len(s)  k == n \div st.b IN
  CASE st.kind = "avg"  -> { <<SumSeq(s), n>> }
    [] st.kind = "wavg" -> { <<SumSeq([i \in 1..n |-> st.w[i] * s[i]]), SumSeq(st.w)>> }
    [] st.kind = "max"  -> { <<MaxSeq(s), 1>> }
    [] st.kind = "med"  -> { <<Median2(s), 2>> }
    [] st.kind = "aom"  -> { <<v, st.b>> : v \in AomSums(s, 1..n, k) }
    [] st.kind = "moa"  -> { <<v, k>> : v \in MoaMaxs(s, 1..n, k) }

Verdict(st, e) ==
  CASE e.op \in {"new", "fit"} -> IF e.r.k = "ok" THEN "" ELSE e.op \o "-failed"
    [] e.op = "transform" ->
         IF ~e.kept THEN "transform-modified-its-input"
         ELSE IF \E v \in Allowed(st, e.s) : Near(e.r, v[1], v[2], st.Q, 1) THEN "" ELSE st.kind \o "-of-the-current-scores"
    [] OTHER -> "unknown-event"
=============================================================================
