----------------------------- MODULE MC_Scaler -----------------------------
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Vecs
VARIABLES cfg, st, hist
S == INSTANCE Scaler
Cfgs == { [kind |-> k, p |-> p, Q |-> 10000] : k \in {"id", "std", "norm"}, p \in {2} } \cup { [kind |-> "norm", p |-> p, Q |-> 10000] : p \in {0, 1, 3} }
Ops(c, s, h) == { [op |-> o, x |-> v] : o \in {"fit", "transform"}, v \in Vecs }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
\* the specified standardised instance has mean zero and unit population variance
StdInv == \A v \in Vecs : LET n == Len(v)  c == [i \in 1..n |-> n * v[i] - SumSeq(v)] IN
            SumSeq(c) = 0 /\ SumSqSeq(c) = n * S!VarN(v)
\* the verdict accepts the exact value and rejects a neighbour
Num(k) == [k |-> "num", v |-> k, t |-> ""]
NormInv == \A v \in Vecs : (cfg.kind = "norm" /\ cfg.p \in {0, 1} /\ S!Defined(st, v)) =>
             \A i \in 1..Len(v) :
               LET D == IF cfg.p = 0 THEN MaxSeq(S!AbsSeq(v)) ELSE S!PowSum(v, 1)
                   k == Scaled(v[i], D, cfg.Q) IN
               S!EntryOK(st, v, i, Num(k)) /\ ~S!EntryOK(st, v, i, Num(k + 9)) /\ ~S!EntryOK(st, v, i, Num(k - 9))
==============================================================================
