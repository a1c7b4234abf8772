---------------------------- MODULE MC_Deviation ----------------------------
(* Invariants: the mean-centred statistic is invariant under permutation of   *)
(* the stream, the incremental sums equal the declarative ones, and the MAD   *)
(* bookkeeping holds one deviation per fitted value.                           *)
EXTENDS Util, Stat
CONSTANTS MaxLen, EmitScn, Kinds, Pts
VARIABLES cfg, st, hist
S == INSTANCE Deviation
Cfgs == { [kind |-> k, abs |-> a, bn |-> 7413, bd |-> 5000, Q |-> 1000] : k \in Kinds, a \in BOOLEAN }
Ops(c, s, h) == { [op |-> "fit", x |-> x] : x \in Pts }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
Meter == FoldLeft(LAMBDA m, o : MeterAdd(m, o.x), MeterInit, hist)
\* deviations recomputed from every prefix of the history
DevInv == cfg.kind = "mad" =>
            /\ Len(st.dev2) = Len(hist)
            /\ \A i \in 1..Len(hist) : st.dev2[i] = Abs(2 * hist[i].x - Median2([j \in 1..i |-> hist[j].x]))
MeterInv == /\ Meter.lst = st.xs
            /\ hist # <<>> => S!VarN(st.xs) = MeterGet("var", 1, Meter).n /\ S!VarN(st.xs) >= 0
==============================================================================
