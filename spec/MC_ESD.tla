------------------------------- MODULE MC_ESD -------------------------------
(* All short histories of fit / score / fit_score: the candidate window of a   *)
(* score is the window that fitting the value would give; at most k of the     *)
(* values can be selected; the newest is selected only with a statistic that   *)
(* is maximal at its step.                                                     *)
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Pts, W, K
VARIABLES cfg, st, hist
S == INSTANCE ESD
Lam == [i \in 1..K |-> 14000 - 1000 * i]
Cfgs == { [W |-> W, k |-> K, hybrid |-> h, lam |-> Lam, Q |-> 1000] : h \in BOOLEAN }
Ops(c, s, h) == { [op |-> o, x |-> x] : o \in {"fit", "score", "fit_score"}, x \in Pts }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
Fitted == SelectSeq(hist, LAMBDA o : o.op # "score")
WinInv == st.win = Suffix([i \in 1..Len(Fitted) |-> Fitted[i].x], W)
Zeros == [i \in 1..W |-> 0]
\* shifting all values changes no outcome; constant residuals select nothing
OutInv == Len(st.win) = W =>
            LET O == S!Outcomes(st, st.win, Zeros) IN
            /\ O # {}
            /\ O = S!Outcomes(st, [i \in 1..W |-> st.win[i] + 5], Zeros)
            /\ (\A i \in 1..W : st.win[i] = st.win[1]) => O = { <<>> }
==============================================================================
