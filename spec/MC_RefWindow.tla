---------------------------- MODULE MC_RefWindow ----------------------------
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Ws, Ss, InitLens
VARIABLES cfg, st, hist
S == INSTANCE RefWindow
Elem(i, lab) == <<i, IF lab THEN 1 + ((i * 7) % 3) ELSE 0>>
Cfgs == { [w |-> w, s |-> s, hasInit |-> k > 0, init |-> [i \in 1..k |-> Elem(500 + i, lab)], lab |-> lab, onefit |-> FALSE]
          : w \in Ws, s \in Ss, k \in InitLens, lab \in BOOLEAN }
Ops(c, s, h) == { [op |-> "fit", x |-> Len(h) + 1, y |-> Elem(Len(h) + 1, c.lab)[2]] }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
\* the detector in use was trained on exactly the declared set
TrainedInv == st.ver > 0 => st.ref = S!TrainedOn(cfg, hist)
\* ... and as often as declared
CountInv == st.ver = (IF cfg.hasInit THEN 1 ELSE 0) + Cardinality({ k \in 1..Len(hist) : S!RetrainAt(cfg, k) })
SizeInv == (st.ver > 1 \/ ~cfg.hasInit) => Len(st.ref) <= cfg.w
==============================================================================
