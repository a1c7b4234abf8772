--------------------------- MODULE MC_StlResidual ---------------------------
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Ws, Pts
VARIABLES cfg, st, hist
S == INSTANCE StlResidual
Cfgs == { [W |-> w, p |-> 2, Q |-> 1000] : w \in Ws }
Ops(c, s, h) == { [op |-> o, x |-> x] : o \in {"fit", "transform", "fit_transform"}, x \in Pts }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
F == SelectSeq(hist, LAMBDA o : o.op # "transform")
WinInv == st.win = Suffix([i \in 1..Len(F) |-> F[i].x], cfg.W)
==============================================================================
