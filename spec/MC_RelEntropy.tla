--------------------------- MODULE MC_RelEntropy ---------------------------
(* The code recomputes the current histogram on every fit and fixes the null   *)
(* hypothesis at the first full window (m = 0); run beside the specification.  *)
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Ws, N, Hs
VARIABLES cfg, st, hist
S == INSTANCE RelEntropy
Cfgs == { [W |-> w, N |-> N, T |-> 663489, ln |-> <<0, 69315, 109861, 138629, 160944, 179176, 194591, 207944>>] : w \in Ws }
Ops(c, s, h) == { [op |-> "fit", h |-> x] : x \in Hs }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
Step(m, o) ==
  LET u == Append(m.util, o.h)
      w == IF Len(u) > cfg.W THEN SubSeq(u, Len(u) - cfg.W + 1, Len(u)) ELSE u
  IN  IF Len(w) < cfg.W THEN [m EXCEPT !.util = w]
      ELSE [util |-> w, hat |-> S!Hist(N, w), m |-> 1, P |-> IF m.m = 0 THEN S!Hist(N, w) ELSE m.P]
Code == FoldLeft(Step, [util |-> <<>>, hat |-> <<>>, m |-> 0, P |-> <<>>], hist)
CodeInv == Code.P = st.P /\ Code.util = st.win /\ (Code.m = 1) = S!Full(st)
\* a window with the first window's own histogram always agrees with it
SelfInv == S!Full(st) /\ S!Hist(N, st.win) = st.P => ~S!Infinite(st) /\ S!G(st) = 0
==============================================================================
