----------------------------- MODULE MC_Contract -----------------------------
EXTENDS Util
CONSTANTS MaxLen, EmitScn
VARIABLES cfg, st, hist
S == INSTANCE Contract
Ranges == {"free", "finite", "unit", "halfopen", "nonneg", "nonpos", "flag", "count", "half"}
Cfgs == [role : {"any"}, range : IF EmitScn THEN {"unit"} ELSE Ranges, dim : {2}, out : IF EmitScn THEN {1} ELSE {-1, 1, 3}, self : {TRUE}]
Op(o, n) == [op |-> o, n |-> n]
Ops(c, s, h) == { Op("fit", 1), Op("fitbatch", 2), Op("fs", 1), Op("fsbatch", 2), Op("chain", 2) }
                \cup (IF s.n > 0 THEN { Op("read", 1), Op("readbatch", 2) } ELSE {})
                \cup (IF s.n > 1 THEN { Op("remove", 1) } ELSE {})
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn

N(s, u, i) == [k |-> "num", s |-> s, u |-> u, i |-> i]
Nums == { N(0, -1, 0), N(-1, -1, -1), N(-1, -1, 99), N(1, -1, 99), N(1, 0, 1), N(1, 1, 2), N(1, 1, 99) }
Bad == { [k |-> k, s |-> 0, u |-> 0, i |-> 99] : k \in {"nan", "inf", "ninf", "other"} }
Good(g) == { v \in Nums : S!InRange(g, v) }
Res(o, v, size) == [op |-> o.op, n |-> o.n, r |-> "ok", self |-> TRUE, size |-> size, nd |-> 1, v |-> <<v>>]
\* the contract can be met in every reachable state by every enabled call, and
\* a result of the wrong size, a lost receiver or (unless free) a non-number is refused
Satisfiable == \A o \in Ops(cfg, st, hist) : \E v \in Nums : S!Verdict(st, Res(o, v, S!Size(st, o))) = ""
Refuses == \A o \in Ops(cfg, st, hist) :
   IF S!Fitting(o) THEN S!Verdict(st, [Res(o, N(0, -1, 0), 1) EXCEPT !.self = FALSE]) # ""
   ELSE /\ \A v \in Good(cfg.range) : S!Verdict(st, Res(o, v, S!Size(st, o) + 1)) # ""
        /\ \A v \in Bad : (cfg.range # "free" \/ v.k = "other") => S!Verdict(st, Res(o, v, S!Size(st, o))) # ""
\* the ranges nest as they should
Nested == /\ Good("half") \subseteq Good("halfopen") /\ Good("halfopen") \subseteq Good("unit") /\ Good("unit") \subseteq Good("nonneg")
          /\ Good("nonneg") \subseteq Good("finite") /\ Good("flag") \subseteq Good("nonpos") /\ Good("nonneg") \cap Good("nonpos") = {N(0, -1, 0)}
Counted == st.n >= 0
==============================================================================
