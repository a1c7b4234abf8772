-------------------------- MODULE MC_WindowedMetric --------------------------
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Sizes
VARIABLES cfg, st, hist
S == INSTANCE WindowedMetric
Cfgs == { [kind |-> "user", w |-> w, ign |-> g, wt |-> 3, Q |-> 100] : w \in Sizes, g \in BOOLEAN }
Ops(c, s, h) == { [op |-> "update", y |-> y, s |-> x] : y \in {0, 1}, x \in {0, 1} }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
Pairs == [i \in 1..Len(hist) |-> <<hist[i].y, hist[i].s>>]
ClosedInv == LET ws == S!Windows(Pairs, cfg.w)
             IN  /\ st.closed = Len(ws)
                 /\ st.lo = SumSeq([i \in 1..Len(ws) |-> 100 * S!UserVal(3, ws[i])])
                 /\ st.lo = st.hi
RestInv == st.cur = S!Rest(Pairs, cfg.w) /\ Len(st.cur) < cfg.w
==============================================================================
