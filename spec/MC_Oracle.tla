------------------------------ MODULE MC_Oracle ------------------------------
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Labels
VARIABLES cfg, st, hist
S == INSTANCE Oracle
Cfgs == { [kind |-> k] : k \in {"perfect", "null"} }
Ops(c, s, h) == { [op |-> "fit", y |-> <<l>>, n |-> 0] : l \in Labels }
                \cup { [op |-> "fit_score", y |-> <<l>>, n |-> 1] : l \in Labels }
                \cup (IF c.kind = "null" \/ s.q # <<>> THEN { [op |-> "score", y |-> <<>>, n |-> 1] } ELSE {})
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
Sub(P(_)) == Len(SelectSeq(hist, P))
Fitted == SelectSeq(hist, LAMBDA o : o.op # "score" /\ o.y[1] # "none")
Took == Sub(LAMBDA o : o.op = "score" \/ (o.op = "fit_score" /\ o.y[1] # "none"))
\* pending labels are exactly the fitted ones minus the number of scores taken, oldest first
Fifo == cfg.kind = "perfect" => st.q = SubSeq([i \in 1..Len(Fitted) |-> Fitted[i].y[1]], Took + 1, Len(Fitted))
==============================================================================
