------------------------------ MODULE MC_Metric ------------------------------
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Scores
VARIABLES cfg, st, hist
S == INSTANCE Metric
Cfgs == { [kind |-> "all", Q |-> 10000] }
Ops(c, s, h) == { [op |-> "update", y |-> y, s |-> x] : y \in {0, 1}, x \in Scores }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
H == st.h
\* every metric lies in [0,1]; each pair counted once; order is irrelevant
Sane == \A k \in {"precision", "recall", "auroc", "aupr"} :
          LET v == S!MetricOf(k, H, 10000) IN v.k = "num" => v.lo <= 10000 /\ v.hi >= 0
Counted == Len(H) = Len(hist) /\ Len(S!Pos(H)) + Len(S!Neg(H)) = Len(hist)
OrderFree == S!MetricOf("aupr", Reverse(H), 10000) = S!MetricOf("aupr", H, 10000)
             /\ S!MetricOf("auroc", Reverse(H), 10000) = S!MetricOf("auroc", H, 10000)
\* swapping labels mirrors the area under the ROC curve
Mirror == LET sw == [i \in 1..Len(H) |-> <<1 - H[i][1], H[i][2]>>]
          IN  (Len(S!Pos(H)) > 0 /\ Len(S!Neg(H)) > 0) =>
                S!Concord2(H) + S!Concord2(sw) = 2 * Len(S!Pos(H)) * Len(S!Neg(H))
==============================================================================
