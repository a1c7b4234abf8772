------------------------------ MODULE MC_Storm ------------------------------
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Ws, Pts, R4s
VARIABLES cfg, st, hist
S == INSTANCE Storm
Cfgs == { [w |-> w, R4 |-> r, Q |-> 1000] : w \in Ws, r \in R4s }
Ops(c, s, h) == { [op |-> o, x |-> <<x>>] : o \in {"fit", "score"}, x \in Pts }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
Fitted == LET u == SelectSeq(hist, LAMBDA o : o.op = "fit") IN [i \in 1..Len(u) |-> u[i].x]
WinInv == st.win = Suffix(Fitted, cfg.w)
\* a larger radius never loses neighbours; the fraction stays within [0,1]
Mono == \A x \in Pts : /\ S!Close(st, <<x>>) \in 0..Len(S!Others(st.win))
                       /\ S!Close([st EXCEPT !.R4 = @ + 4], <<x>>) >= S!Close(st, <<x>>)
==============================================================================
