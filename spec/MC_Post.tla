------------------------------- MODULE MC_Post -------------------------------
EXTENDS Stat
CONSTANTS MaxLen, EmitScn, Vals, Sizes
VARIABLES cfg, st, hist
S == INSTANCE Post
Cfgs == { [kind |-> "all", w |-> w, Q |-> 1, za |-> 1, zb |-> 1] : w \in Sizes }
Ops(c, s, h) == { [op |-> o, x |-> x] : o \in {"fit", "fit_transform"}, x \in Vals }
                \cup (IF s.m.n = 0 THEN {} ELSE { [op |-> "transform", x |-> x] : x \in Vals })
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
Ref(h) == IF cfg.w > 0 THEN Suffix(S!Fitted(h), cfg.w) ELSE S!Fitted(h)
\* only fits matter, and exactly the retained ones
PostInv == /\ st.win = Ref(hist)
           /\ \A k \in {"avg", "max", "median", "var"} : MeterGet(k, 1, st.m) = StatOf(k, 1, Ref(hist))
\* the conformal fraction is antitone in the score and within [0, n]
ConfInv == \A x, y \in Vals : x <= y => /\ S!Greater(st.win, y) <= S!Greater(st.win, x)
                                        /\ S!Greater(st.win, x) \in 0..Len(st.win)
==============================================================================
