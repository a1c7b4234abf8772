----------------------------- MODULE MC_KNNCAD -----------------------------
(* All interleavings of fits (new value low, equal or high) and scores around  *)
(* the end of probation; the code's own bookkeeping (a counter that starts at  *)
(* -1, queues that pop before they append) runs beside it.                     *)
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Ps, Dim
VARIABLES cfg, st, hist
S == INSTANCE KNNCAD
Cfgs == { [P |-> p, dim |-> Dim, numeric |-> TRUE, Q |-> 1000000] : p \in Ps }
Ops(c, s, h) == { [op |-> "fit", init |-> [i \in 1..(c.P - c.dim) |-> 1], s |-> x] : x \in 0..2 }
                \cup (IF s.n = 0 THEN {} ELSE { [op |-> "score", q |-> q] : q \in {1, 3} })
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn

Step(m, o) ==
  IF o.op = "fit"
  THEN LET n == m.n + 1 IN
       IF n < cfg.P THEN [m EXCEPT !.n = n]
       ELSE [m EXCEPT !.n = n, !.scores = Append(Tail(IF @ = <<>> THEN o.init ELSE @), o.s)]
  ELSE IF m.n < cfg.P THEN m
       ELSE IF m.pred > 0 THEN [m EXCEPT !.pred = @ - 1]
       ELSE IF CountIf(LAMBDA x : x < o.q, m.scores) * 10000 >= 9965 * Len(m.scores)
            THEN [m EXCEPT !.pred = cfg.P \div 5] ELSE m
Code == FoldLeft(Step, [n |-> 0, pred |-> 0 - 1, scores |-> <<>>], hist)
CodeInv == LET m == Code IN m.n = st.n /\ MaxI(m.pred, 0) = st.pred /\ (m.n >= cfg.P => m.scores = st.ref)
SizeInv == Len(st.ref) <= S!Keep(st) /\ (st.n >= cfg.P => Len(st.ref) = S!Keep(st))
==============================================================================
