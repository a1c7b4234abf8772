--------------------------- MODULE MC_Decomposer ---------------------------
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Ls, Tws, Pts
VARIABLES cfg, st, hist
S == INSTANCE Decomposer
Cfgs == { [L |-> l, tw |-> t, d |-> 1, Q |-> 100000] : l \in Ls, t \in Tws }
Ops(c, s, h) == { [op |-> "fit", x |-> <<x>>] : x \in Pts } \cup { [op |-> "fit_transform", x |-> <<x>>] : x \in Pts }
                \cup { [op |-> "transform", x |-> <<1>>] }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
F == SelectSeq(hist, LAMBDA o : o.op # "transform")
X(i) == F[i].x[1]
\* declarative seasonal sums from the whole fitted history
Contrib(i) == cfg.tw * X(i) - SumSeq([j \in 1..cfg.tw |-> X(i - cfg.tw + j)])
DeclInv == \A ph \in 1..cfg.L :
             LET I == { i \in cfg.tw..Len(F) : (i - 1) % cfg.L = ph - 1 } IN
             /\ st.cnt[ph] = Cardinality(I)
             /\ st.U[ph][1] = SumSeq([i \in 1..Len(F) |-> IF i \in I THEN Contrib(i) ELSE 0])
TrendInv == st.win = Suffix([i \in 1..Len(F) |-> F[i].x], cfg.tw) /\ st.n = Len(F)
==============================================================================
