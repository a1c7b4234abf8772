---------------------------- MODULE MC_RunningStat ----------------------------
EXTENDS Stat
CONSTANTS MaxLen, EmitScn, Vals, Sizes
VARIABLES cfg, st, hist
S == INSTANCE RunningStat
Cfgs == { [kind |-> "all", abs |-> FALSE, wt |-> 1, w |-> w, Q |-> 1] : w \in Sizes }
Ops(c, s, h) == { [op |-> "update", x |-> x] : x \in Vals }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
Kinds == {"count", "sum", "sumsq", "avg", "var", "min", "max", "median", "usum", "useq"}
\* statistic of exactly the last min(n, w) values
RunningInv == \A k \in Kinds : MeterGet(k, 3, st.m) = StatOf(k, 3, Suffix(S!Updates(hist), cfg.w))
WindowInv == st.win = Suffix(S!Updates(hist), cfg.w) /\ st.m.lst = st.win
==============================================================================
