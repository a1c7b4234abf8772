------------------------------- MODULE MC_Fun -------------------------------
(* Ideal components (one per identity, result = injective encoding of what the  *)
(* specification says a result may depend on), two objects, all interleavings.  *)
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Toks, Wins, OpNames
VARIABLES cfg, st, hist
S == INSTANCE Fun
Cfgs == { [nobj |-> 2, win |-> w[1], phase |-> w[2], readmut |-> r, same |-> s] : w \in Wins, r \in {FALSE}, s \in BOOLEAN }
SetUp(c) == LET a == S!Apply(S!Init(c), [op |-> "new", o |-> 1, id |-> 1])
            IN S!Apply(a, [op |-> "new", o |-> 2, id |-> IF c.same THEN 1 ELSE 2])
RECURSIVE Enc(_)
Enc(h) == IF h = <<>> THEN 0 ELSE Enc(Tail(h)) * 7 + Head(h) + 1
Ideal(s, b, e) == b.id * 1000000 + S!Age(s, b.n) * 100000 + Enc(b.h) * 10 + e.x + 1
Raw(o, n, x) == [op |-> n, o |-> o, id |-> 0, call |-> "score", x |-> x, k |-> "ok", kept |-> TRUE, rm |-> FALSE, out |-> 0]
Full(s, e) == IF e.op = "fit" THEN e ELSE [e EXCEPT !.out = Ideal(s, S!After(s, e), e)]
Ops(c, s, h) == { Full(s, Raw(o, n, x)) : o \in 1..2, n \in OpNames, x \in Toks }
INSTANCE MCBase WITH SInit <- SetUp, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
\* ideal components are never rejected, in any interleaving
Accepts == \A e \in Ops(cfg, st, hist) : S!Verdict(st, e) = ""
\* each object's history is the projection of the run on that object: independence
RECURSIVE Proj(_, _)
Proj(h, o) == IF h = <<>> THEN <<>>
              ELSE (IF Head(h).o = o /\ Head(h).op # "read" THEN <<Head(h).x>> ELSE <<>>) \o Proj(Tail(h), o)
Independent == \A o \in 1..2 :
  LET p == Proj(hist, o) IN
    /\ st.obj[o].n = Len(p)
    /\ st.obj[o].h = CASE cfg.win = 0 -> p [] cfg.win < 0 -> <<>> [] OTHER -> Suffix(p, cfg.win)
\* reads are pure
Pure == \A e \in Ops(cfg, st, hist) : e.op = "read" => S!Apply(st, e).obj = st.obj
\* any other answer to a question already answered is rejected
Sensitive == \A i \in 1..Len(st.memo) : \A e \in Ops(cfg, st, hist) :
   (e.op = "read" /\ S!Key(st, st.obj[e.o], e) = st.memo[i][1]) =>
      S!Verdict(st, [e EXCEPT !.out = e.out + 1]) # ""
=============================================================================
