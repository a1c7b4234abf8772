----------------------------- MODULE MC_RSHash -----------------------------
(* The code stores (timestamp, weight) per cell and decays lazily; with        *)
(* decay 1 and weights in units of 2^-MaxLen this is exact integer arithmetic. *)
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Pts
VARIABLES cfg, st, hist
S == INSTANCE RSHash
One == Pow(2, MaxLen)
Cfgs == { [m |-> 1, dim |-> 1, feat |-> <<1>>, Q |-> One, tab |-> [i \in 1..(MaxLen + 1) |-> Pow(2, MaxLen - i + 1)]] }
Ops(c, s, h) == { [op |-> "fit", x |-> <<x>>] : x \in Pts }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
\* lazily decayed counters: cell -> <<timestamp, weight>>, last score
Step(m, x) ==
  LET t == m.idx
      old == IF x \in DOMAIN m.c THEN m.c[x] ELSE <<t, 0>>
      nw  == old[2] \div Pow(2, t - old[1])
  IN  [idx |-> t + 1, last |-> nw, c |-> (x :> <<t, nw + One>>) @@ m.c]
M == FoldLeft(Step, [idx |-> 1, last |-> 0, c |-> <<>>], [i \in 1..Len(hist) |-> hist[i].x[1]])
LazyInv == hist # <<>> => M.last = S!Decayed(st, {1})
\* an instance never contributes to its own score
FreshInv == (hist # <<>> /\ \A i \in 1..(Len(hist) - 1) : hist[i].x # hist[Len(hist)].x) => S!Decayed(st, {1}) = 0
==============================================================================
