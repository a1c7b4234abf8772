------------------------------ MODULE MC_Batch ------------------------------
EXTENDS Util
CONSTANTS MaxLen, EmitScn, MaxN, Kinds
VARIABLES cfg, st, hist
S == INSTANCE Batch
Cfgs == { [kind |-> k, ovr |-> o, boom |-> b, dims |-> d] :
            k \in Kinds, o \in BOOLEAN, b \in {-1, 2}, d \in {-1, 2} }
Inst(c) == IF c.kind = "post" THEN { <<0>>, <<1>>, <<2>> } ELSE { <<0, 0>>, <<2, 0>>, <<1, 1>> }
Seqs(Vs, n) == UNION { [1..i -> Vs] : i \in 0..n }
Ops(c, s, h) ==
  UNION { { [m |-> m, X |-> X, y |-> y] : y \in IF c.kind = "model" /\ m # "read"
                                              THEN { <<>>, [i \in 1..Len(X) |-> i % 2] } ELSE { <<>> } }
          : m \in {"fit", "read", "fs"}, X \in Seqs(Inst(c), MaxN) }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
\* a batch of any length equals the singletons applied in order
RECURSIVE One(_, _, _)
One(s, o, i) ==
  IF i > Len(o.X) THEN [st |-> s, outs |-> <<>>, err |-> FALSE]
  ELSE LET e == [m |-> o.m, X |-> <<o.X[i]>>, y |-> IF Len(o.y) > 0 THEN <<o.y[i]>> ELSE <<>>]
           r == S!Run(s, e)
       IN IF r.err THEN [st |-> S!Apply(s, e), outs |-> <<>>, err |-> TRUE]
          ELSE LET t == One(S!Apply(s, e), o, i + 1) IN [t EXCEPT !.outs = r.outs \o @]
BatchIsFold ==
  \A o \in Ops(cfg, st, hist) :
    LET r == S!Run(st, o) t == One(st, o, 1) IN
      /\ r.err = t.err
      /\ r.h = t.st.h
      /\ ~r.err => r.outs = t.outs
\* reads never change the state
ReadsPure == \A o \in Ops(cfg, st, hist) : o.m = "read" => S!Apply(st, o) = st
\* without an override the combined method is fit then read
Combined == \A o \in Ops(cfg, st, hist) :
  (o.m = "fs" /\ ~cfg.ovr /\ Len(o.X) = 1) =>
     LET r == S!Run(st, o)
         f == S!Run(st, [o EXCEPT !.m = "fit"])
         g == S!Run([st EXCEPT !.h = f.h], [m |-> "read", X |-> o.X, y |-> <<>>])
     IN ~r.err => (r.h = f.h /\ r.outs = g.outs /\ r.calls = f.calls \o g.calls)
=============================================================================
