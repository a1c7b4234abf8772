-------------------------------- MODULE Guard --------------------------------
(* Which constructor arguments and which instances the components accept, and  *)
(* that a rejected call leaves no trace.                                       *)
(*   cls  esd        SeasonalESD, SeasonalHybridESD                            *)
(*        stl        ModifiedSTLResidualTransformer                            *)
(*        decomp     SeasonalTrendDecomposer                                   *)
(*        sad        StandardAbsoluteDeviation                                 *)
(* -1 stands for None in window parameters.  alpha is an integer number of     *)
(* AQ-ths, or of kind nan / inf / ninf.                                        *)
(* An object is what it was constructed with and the instances it accepted, in *)
(* order; results are a function of that (memo holds the part observed so far).*)
EXTENDS Util
AQ == 10000000

MaxAnomalies(w) == (49 * w) \div 100
Accepts(cls, p) ==
  CASE cls = "esd" -> /\ p.period >= 2
                      /\ p.window >= 2 * p.period
                      /\ p.maxan >= 1 /\ p.maxan <= MaxAnomalies(p.window)
                      /\ p.alpha.k = "num" /\ p.alpha.v > 0 /\ p.alpha.v < AQ
    [] cls = "stl" -> /\ p.period >= 2
                      /\ (p.window = -1 \/ p.window >= 2 * p.period)
    [] cls = "decomp" -> /\ p.period >= 1
                         /\ (p.window = -1 \/ p.window >= 1)
    [] cls = "sad" -> p.stat \in {"mean", "median"}

Prod(s) == FoldLeft(LAMBDA a, x : a * x, 1, s)
\* shape: the shape of the array passed
Univariate(shape) == Len(shape) = 1 \/ (Len(shape) = 2 /\ shape[2] = 1)
ValidCall(cls, p, e) ==
  CASE cls = "esd" -> e.shape = <<1>>
    [] cls = "stl" -> IF e.op = "window" THEN Univariate(e.shape) /\ e.shape[1] >= 2 * p.period
                      ELSE p.window # -1 /\ Univariate(e.shape) /\ e.shape[1] = 1
    [] OTHER -> TRUE

Init(cfg) == [cls |-> cfg.cls, p |-> cfg.p, made |-> {}, h |-> <<>>, memo |-> <<>>]

H(st, o) == IF o <= Len(st.h) THEN st.h[o] ELSE <<>>
Grow(h, o) == [i \in 1..MaxI(o, Len(h)) |-> IF i <= Len(h) THEN h[i] ELSE <<>>]
Fits(e) == e.op \in {"fit", "fs"}
Accepted(st, e) == ValidCall(st.cls, st.p, e)
After(st, e) == IF Fits(e) /\ Accepted(st, e) THEN Append(H(st, e.o), e.x) ELSE H(st, e.o)

RECURSIVE Lookup(_, _, _)
Lookup(memo, key, i) == IF i > Len(memo) THEN "" ELSE IF memo[i][1] = key THEN memo[i][2] ELSE Lookup(memo, key, i + 1)
\* whole-window transforms depend on their argument only
Key(st, e) == IF e.op = "window" THEN <<"window", <<>>, e.x>> ELSE <<e.op, After(st, e), e.x>>
Apply(st, e) ==
  CASE e.op = "new" -> IF Accepts(st.cls, st.p) THEN [st EXCEPT !.made = @ \cup {e.o}, !.h = [Grow(@, e.o) EXCEPT ![e.o] = <<>>]] ELSE st
    [] e.op = "probe" -> st
    [] ~Accepted(st, e) -> st
    [] OTHER -> LET s == [st EXCEPT !.h = [Grow(@, e.o) EXCEPT ![e.o] = After(st, e)]] IN
                IF e.op = "fit" \/ Lookup(st.memo, Key(st, e), 1) # "" THEN s ELSE [s EXCEPT !.memo = Append(@, <<Key(st, e), e.out>>)]

Rejected(e) == e.r.k = "exc" /\ e.r.t = "ValueError"
Verdict(st, e) ==
  CASE e.op = "new" -> IF Accepts(st.cls, st.p) THEN IF e.r.k = "ok" THEN "" ELSE "valid-arguments-accepted"
                       ELSE IF Rejected(e) THEN "" ELSE "invalid-arguments-rejected"
    \* one-off construction with arguments e.p
    [] e.op = "probe" -> IF Accepts(e.cls, e.p) THEN IF e.r.k = "ok" THEN "" ELSE "valid-arguments-accepted"
                         ELSE IF Rejected(e) THEN "" ELSE "invalid-arguments-rejected"
    [] e.o \notin st.made -> "machinery-call-on-missing-object"
    [] ~Accepted(st, e) -> IF Rejected(e) THEN "" ELSE "invalid-instance-rejected"
    [] e.r.k # "ok" -> "valid-instance-accepted"
    [] e.op = "fit" -> ""
    [] OTHER -> LET p == Lookup(st.memo, Key(st, e), 1) IN
                IF p = "" \/ p = e.out THEN "" ELSE "rejected-call-left-a-trace"
=============================================================================
