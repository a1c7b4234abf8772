------------------------------ MODULE MC_Bounds ------------------------------
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Vals, Ns, Ds
VARIABLES cfg, st, hist
S == INSTANCE Bounds
Cfgs == UNION { [1..n -> [1..d -> Vals]] : n \in Ns, d \in Ds }
Ops(c, s, h) == { [op |-> o] : o \in {"array", "scalar"} }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
R == cfg
D == Len(R[1])
\* bounds enclose every value and are attained
Encloses == \A i \in 1..Len(R), j \in 1..D : S!Mins(R)[j] <= R[i][j] /\ R[i][j] <= S!Maxs(R)[j]
Attained == \A j \in 1..D : (\E i \in 1..Len(R) : R[i][j] = S!Mins(R)[j]) /\ (\E i \in 1..Len(R) : R[i][j] = S!Maxs(R)[j])
\* bounds of a part never leave the bounds of the whole
Prefix == Len(R) > 1 => LET P == SubSeq(R, 1, Len(R) - 1) IN \A j \in 1..D : S!Mins(R)[j] <= S!Mins(P)[j] /\ S!Maxs(P)[j] <= S!Maxs(R)[j]
==============================================================================
