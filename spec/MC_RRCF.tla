------------------------------ MODULE MC_RRCF ------------------------------
(* The code identifies points by their arrival index and forgets the index     *)
(* index - size before inserting the next one.                                 *)
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Sizes, Pts
VARIABLES cfg, st, hist
S == INSTANCE RRCF
Cfgs == { [size |-> k, trees |-> 2, Q |-> 1000] : k \in Sizes }
Ops(c, s, h) == { [op |-> "fit", x |-> x] : x \in Pts }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
Held(n) == FoldLeft(LAMBDA H, i : (IF i >= cfg.size THEN H \ {i - cfg.size} ELSE H) \cup {i}, {}, [i \in 1..n |-> i - 1])
IndexInv == /\ Cardinality(Held(Len(hist))) = MinI(Len(hist), cfg.size)
            /\ \A x \in Pts : CountIf(LAMBDA y : y = x, st.win) = Cardinality({ i \in Held(Len(hist)) : hist[i + 1].x = x })
\* the displacement of any instance counts the retained instances below it
RankInv == st.win # <<>> /\ S!Distinct(st.win) =>
             \A x \in Pts \cup {100, 0 - 1} :
               LET v == S!CoDisp(st.win, x)  k == S!Below(st.win, x) IN
               v[2] = 1 /\ v[1] = (IF st.win = <<x>> THEN 0 ELSE MaxI(1, k))
==============================================================================
