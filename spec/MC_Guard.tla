------------------------------- MODULE MC_Guard -------------------------------
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Periods, Windows, Maxans, Alphas, Vals, Shapes
VARIABLES cfg, st, hist
S == INSTANCE Guard
Num(v) == [k |-> "num", v |-> v]
P(per, w, m, a, s) == [period |-> per, window |-> w, maxan |-> m, alpha |-> a, stat |-> s]
Cfgs == [cls : {"esd"}, p : { P(per, w, m, a, "") : per \in Periods, w \in Windows \ {-1}, m \in Maxans, a \in Alphas }]
        \cup [cls : {"stl", "decomp"}, p : { P(per, w, 0, Num(0), "") : per \in Periods, w \in Windows }]
        \cup [cls : {"sad"}, p : { P(0, 0, 0, Num(0), s) : s \in {"mean", "median", "mode", "", "Mean", "None"} }]
OpsOf(c, s) == CASE c.cls = "esd" -> {"fit", "score", "fs"} [] c.cls = "stl" -> {"fit", "score", "fs", "window"}
                 [] OTHER -> {"fit"} \cup (IF s.made # {} /\ S!H(s, 1) # <<>> THEN {"score"} ELSE {})
New == [op |-> "new", o |-> 1, x |-> 0, shape |-> <<1>>]
Ops(c, s, h) == IF h = <<>> THEN {New}
                ELSE IF s.made = {} THEN {}
                ELSE { [op |-> n, o |-> 1, x |-> v, shape |-> sh] : n \in OpsOf(c, s), v \in Vals,
                                                                  sh \in (IF c.cls \in {"esd", "stl"} THEN Shapes ELSE {<<1>>}) }
MApply(s, e) == S!Apply(s, [op |-> e.op, o |-> e.o, x |-> e.x, shape |-> e.shape, out |-> "t"])
INSTANCE MCBase WITH SInit <- S!Init, SApply <- MApply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn

\* accepted seasonal ESD arguments leave every tested step with degrees of freedom,
\* a full window with two periods, and a residual transformer that accepts them too
EsdSound == (cfg.cls = "esd" /\ S!Accepts("esd", cfg.p)) =>
              /\ \A i \in 1..cfg.p.maxan : cfg.p.window - i - 1 >= 1
              /\ cfg.p.window >= 2 * cfg.p.period
              /\ S!Accepts("stl", cfg.p)
\* every accepted configuration accepts something, and its history is the accepted fits
History == st.made # {} =>
   st.h[1] = LET f == SelectSeq(hist, LAMBDA o : o.op \in {"fit", "fs"} /\ S!ValidCall(cfg.cls, cfg.p, o)) IN [i \in 1..Len(f) |-> f[i].x]
NothingMade == ~S!Accepts(cfg.cls, cfg.p) => st = S!Init(cfg)
\* more of the window never turns an accepted set of arguments into a rejected one
Monotone == (cfg.cls # "sad" /\ S!Accepts(cfg.cls, cfg.p) /\ cfg.p.window # -1) => S!Accepts(cfg.cls, [cfg.p EXCEPT !.window = @ + 1])
==============================================================================
