------------------------------- MODULE MC_Copy ------------------------------
(* Ideal components (see MC_Fun) that are copied onto one another at any       *)
(* point: every interleaving of fits, reads and copies of two objects.         *)
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Toks, Wins
VARIABLES cfg, st, hist
S == INSTANCE Fun
Cfgs == { [nobj |-> 2, win |-> w[1], phase |-> w[2], readmut |-> r] : w \in Wins, r \in BOOLEAN }
SetUp(c) == LET a == S!Apply(S!Init(c), [op |-> "new", o |-> 1, id |-> 1])
            IN S!Apply(a, [op |-> "new", o |-> 2, id |-> 1])
RECURSIVE Enc(_)
Enc(h) == IF h = <<>> THEN 0 ELSE Enc(Tail(h)) * 7 + (IF Head(h) < 0 THEN 3 - Head(h) ELSE Head(h) + 1)
Ideal(s, b, e) == b.id * 10000000 + S!Age(s, b.n) * 1000000 + Enc(b.h) * 10 + e.x + 1
Raw(o, n, x) == [op |-> n, o |-> o, id |-> 0, call |-> "score", x |-> x, k |-> "ok", kept |-> TRUE, rm |-> FALSE, out |-> 0]
Full(s, e) == IF e.op = "fit" THEN e ELSE [e EXCEPT !.out = Ideal(s, S!After(s, e), e)]
Ops(c, s, h) == { Full(s, Raw(o, n, x)) : o \in 1..2, n \in {"fit", "read"}, x \in Toks } \cup { Raw(1, "copy", 2), Raw(2, "copy", 1) }
INSTANCE MCBase WITH SInit <- SetUp, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
\* ideal components are never rejected, in any interleaving
Accepts == \A e \in Ops(cfg, st, hist) : S!Verdict(st, e) = ""
\* an object's history: that of its source up to the last copy, then its own
RECURSIVE Lineage(_, _)
Lineage(h, o) ==
  IF h = <<>> THEN <<>>
  ELSE LET p == SubSeq(h, 1, Len(h) - 1) e == h[Len(h)] IN
       IF e.o # o THEN Lineage(p, o)
       ELSE CASE e.op = "copy" -> Lineage(p, e.x)
              [] e.op = "fit"  -> Append(Lineage(p, o), e.x)
              [] OTHER         -> IF cfg.readmut THEN Append(Lineage(p, o), -(e.x) - 1) ELSE Lineage(p, o)
Descends == (cfg.win = 0) => \A o \in 1..2 : st.obj[o].h = Lineage(hist, o)
\* a copy leaves its source as it was, and no operation on one touches the other
Apart == \A e \in Ops(cfg, st, hist) : S!Apply(st, e).obj[3 - e.o] = st.obj[3 - e.o]
==============================================================================
