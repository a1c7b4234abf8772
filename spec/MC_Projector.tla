---------------------------- MODULE MC_Projector ----------------------------
(* Environment: a projector that really applies one of all 2x2 matrices over   *)
(* {-1,0,1}; the belief built from unit probes never rejects it, and after     *)
(* both probes it rejects every different answer.                              *)
EXTENDS Util
CONSTANTS MaxLen, EmitScn
VARIABLES cfg, st, hist
S == INSTANCE Projector
Mats == [1..2 -> [1..2 -> {-1, 0, 1}]]
Cfgs == { [k |-> 2, Q |-> 1, hash |-> FALSE, kind |-> "gauss", pct |-> <<33>>, c |-> <<1>>, dim |-> 2, objs |-> 1, maxdim |-> 2, R |-> R] : R \in Mats }
Vecs == { <<1, 0>>, <<0, 1>>, <<2, -1>> }
Ans(R, x, d) == [i \in 1..2 |-> [k |-> "num", v |-> R[i][1] * x[1] + R[i][2] * x[2] + d, t |-> ""]]
Ops(c, s, h) == { [op |-> "transform", o |-> 1, x |-> x, r |-> Ans(c.R, x, 0)] : x \in Vecs }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
Accepts == \A x \in Vecs : S!Verdict(st, [op |-> "transform", o |-> 1, x |-> x, r |-> Ans(cfg.R, x, 0)]) = ""
Rejects == LET seen == { hist[i].x : i \in 1..Len(hist) } IN
             ({<<1, 0>>, <<0, 1>>} \subseteq seen) =>
               \A x \in Vecs : S!Verdict(st, [op |-> "transform", o |-> 1, x |-> x, r |-> Ans(cfg.R, x, 9)]) = "one-fixed-linear-map"
\* the census accepts a balanced map of the right density and refuses a dense, a one-sided and a repeated one
Alt(n) == [i \in 1..n |-> CASE i % 6 = 0 -> 10 [] i % 6 = 3 -> -10 [] OTHER -> 0]
Hash == [S!Init([cfg EXCEPT !.hash = TRUE, !.kind = "hash"]) EXCEPT !.k = 1]
With(f) == [Hash EXCEPT !.cols = <<[i \in 1..Len(f) |-> <<f[i]>>]>>]
Twice(f) == [Hash EXCEPT !.k = 2, !.cols = <<[i \in 1..Len(f) |-> <<f[i], f[i]>>]>>]
Counting == hist # <<>> \/
   /\ S!Census(With(Alt(600)), 1) = ""
   /\ S!Census(With([i \in 1..600 |-> IF i % 2 = 0 THEN 10 ELSE -10]), 1) = "density-of-the-map"
   /\ S!Census(With([i \in 1..600 |-> IF i % 3 = 0 THEN 10 ELSE 0]), 1) = "density-of-the-map"
   /\ S!Census(Twice(Alt(600)), 1) = "components-are-different"
==============================================================================
