------------------------------- MODULE MC_LoOP -------------------------------
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Pts, Data, Ks
VARIABLES cfg, st, hist
S == INSTANCE LoOP
Cfgs == [data : Data, k : Ks]
Ops(c, s, h) == { [op |-> o, x |-> <<a, b>>] : o \in {"fit", "score"}, a \in Pts, b \in Pts }
\* any non-decreasing probability of the neighbour distances stands for the detector
Model(s, x) == (S!Q \div 100) * MinI(100, S!Ssd(s, x))
MApply(s, o) == S!Apply(s, IF o.op = "score" THEN [op |-> "score", x |-> o.x, r |-> [k |-> "num", v |-> Model(s, o.x), t |-> ""]] ELSE o)
INSTANCE MCBase WITH SInit <- S!Init, SApply <- MApply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
Ev(x) == LET v == Model(st, x) IN [op |-> "score", x |-> x, r |-> [k |-> "num", v |-> v, t |-> ""], ref |-> [k |-> "num", v |-> v, t |-> ""]]
\* fits never become part of the model, and a detector that ignores them is always accepted
Frozen == st.data = cfg.data /\ st.k = cfg.k
Accepted == \A a \in Pts, b \in Pts : S!Verdict(st, Ev(<<a, b>>)) = ""
\* an initial instance is at least as close as itself; more neighbours never shorten the sum
Closeness == \A a \in Pts, b \in Pts : S!Ssd(st, <<a, b>>) >= 0 /\ (\A k \in 1..(Len(cfg.data) - 1) : S!Ssd([st EXCEPT !.k = k], <<a, b>>) <= S!Ssd([st EXCEPT !.k = k + 1], <<a, b>>))
==============================================================================
