---------------------------- MODULE MC_Ensembler ----------------------------
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Vecs
VARIABLES cfg, st, hist
S == INSTANCE Ensembler
Cfgs == { [kind |-> k, w |-> <<1, 2, 0, 3>>, b |-> 2, Q |-> 10000] : k \in {"avg", "wavg", "max", "med", "aom", "moa"} }
Ops(c, s, h) == { [op |-> o, s |-> v] : o \in {"fit", "transform"}, v \in Vecs }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
\* every combination lies between the smallest and the largest score
Between == \A v \in Vecs : \A r \in S!Allowed(st, v) : MinSeq(v) * r[2] <= r[1] /\ r[1] <= MaxSeq(v) * r[2]
\* the average of maxima is at least the average; the maximum of averages lies between average and maximum
Order == \A v \in Vecs : \A r \in S!Allowed(st, v) :
           /\ cfg.kind = "aom" => r[1] * Len(v) >= SumSeq(v) * r[2]
           /\ cfg.kind = "moa" => r[1] * Len(v) >= SumSeq(v) * r[2]
Unique == cfg.kind \in {"avg", "wavg", "max", "med"} => \A v \in Vecs : Cardinality(S!Allowed(st, v)) = 1
==============================================================================
