------------------------------ MODULE MC_Window ------------------------------
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Sizes, Items
VARIABLES cfg, st, hist
W == INSTANCE Window
Cfgs == { [size |-> s] : s \in Sizes }
Ops(c, s, h) == { [op |-> "update", x |-> x] : x \in Items } \cup { [op |-> "get"] }
INSTANCE MCBase WITH SInit <- W!Init, SApply <- W!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
\* the state machine holds exactly the declarative contents
ContentsInv == st.win = W!Contents(cfg.size, hist)
\* the last item added is always the newest item held
NewestInv == W!Added(hist) # <<>> => st.win[Len(st.win)] = W!Added(hist)[Len(W!Added(hist))]
==============================================================================
