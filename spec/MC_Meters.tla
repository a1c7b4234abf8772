------------------------------ MODULE MC_Meters ------------------------------
EXTENDS Stat
CONSTANTS MaxLen, EmitScn, Vals
VARIABLES cfg, st, hist
S == INSTANCE Meters
Cfgs == { [kind |-> "all", abs |-> FALSE, Q |-> 1] }
Ops(c, s, h) == { [op |-> "update", x |-> x] : x \in Vals }
                \cup { [op |-> "remove", x |-> s.m.lst[i]] : i \in 1..Len(s.m.lst) }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
Kinds == {"count", "sum", "sumsq", "avg", "var", "min", "max", "median"}
\* the incremental meter is the declarative statistic of the held multiset
MeterInv == \A k \in Kinds : MeterGet(k, 1, st.m) = StatOf(k, 1, S!Held(hist))
VarNonNeg == st.m.n > 0 => MeterGet("var", 1, st.m).n >= 0
Order == st.m.n > 0 => LET mn == MeterGet("min", 1, st.m).n
                           mx == MeterGet("max", 1, st.m).n
                           md == MeterGet("median", 1, st.m).n
                       IN  2 * mn <= md /\ md <= 2 * mx /\ mn * st.m.n <= st.m.sum /\ st.m.sum <= mx * st.m.n
==============================================================================
