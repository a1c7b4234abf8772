----------------------------- MODULE MC_KitNet -----------------------------
(* The code's counter (n_trained, map learned at n_trained = FM, execution     *)
(* once n_trained > FM + AD) against the declarative phases, with the number   *)
(* of training steps as the visible value of a probe.                          *)
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Fms, Ads
VARIABLES cfg, st, hist
S == INSTANCE KitNet
Cfgs == { [fm |-> f, ad |-> a, moving |-> TRUE, m |-> 2] : f \in Fms, a \in Ads }
Ops(c, s, h) == { [op |-> "fit"] } \cup (IF s.n = 0 THEN {} ELSE { [op |-> "probe", t |-> <<S!Trained(s)>>] })
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
Step(m, o) ==
  IF o.op # "fit" \/ m.nt > st.fm + st.ad THEN m
  ELSE IF m.nt <= st.fm /\ ~m.map THEN [m EXCEPT !.nt = @ + 1, !.map = (m.nt = st.fm)]
  ELSE [m EXCEPT !.nt = @ + 1, !.out = @ + 1]
Code == FoldLeft(Step, [nt |-> 0, map |-> FALSE, out |-> 0], hist)
CodeInv == Code.out = S!Trained(st) /\ (~Code.map \/ Code.out = 0) = (S!Phase(st) = "grace")
==============================================================================
