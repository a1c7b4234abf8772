------------------------------- MODULE MC_HST -------------------------------
(* The code keeps two masses per node (r_mass, l_mass) and swaps them; here    *)
(* that machine runs beside HST and must give the declarative score.           *)
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Ws, Pts, Depth
VARIABLES cfg, st, hist
S == INSTANCE HST
Cfgs == { [w |-> w, depth |-> Depth, trees |-> 1, range |-> <<8>>, mult |-> 1, init |-> <<>>] : w \in Ws }
Ops(c, s, h) == { [op |-> "fit", x |-> <<x>>] : x \in Pts }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn

Nodes == 1..(Pow(2, Depth + 1) - 1)
Empty == [r |-> [k \in Nodes |-> 0], l |-> [k \in Nodes |-> 0], first |-> TRUE, step |-> 0]
Bump(m, path) == [k \in Nodes |-> IF \E i \in 1..Len(path) : path[i] = k THEN m[k] + 1 ELSE m[k]]
Step(m, x) ==
  LET p  == S!Path(<<>>, x, Depth, <<8>>)
      l2 == Bump(m.l, p)
      r2 == IF m.first THEN Bump(m.r, p) ELSE m.r
  IN  IF (m.step + 1) % cfg.w = 0
      THEN [r |-> l2, l |-> [k \in Nodes |-> 0], first |-> FALSE, step |-> m.step + 1]
      ELSE [r |-> r2, l |-> l2, first |-> m.first, step |-> m.step + 1]
Masses == FoldLeft(Step, Empty, [i \in 1..Len(hist) |-> hist[i].x])
MassScore(m, x) == LET p == S!Path(<<>>, x, Depth, <<8>>)
                   IN  SumSeq([k \in 1..Len(p) |-> Pow(2, k - 1) * m.r[p[k]]])
MassInv == \A x \in Pts : MassScore(Masses, <<x>>) = S!TreeScore(<<>>, <<x>>, st.ref, Depth, <<8>>)
\* the reference window is the last completed one, or everything in the first
RefInv == LET n == Len(hist)
              xs == [i \in 1..n |-> hist[i].x]
          IN  st.ref = IF n < cfg.w THEN xs
                       ELSE SubSeq(xs, (n \div cfg.w - 1) * cfg.w + 1, (n \div cfg.w) * cfg.w)
==============================================================================
