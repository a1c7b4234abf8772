------------------------------ MODULE MC_Memory ------------------------------
(* Abstract components: fixed part k, c slots per retained instance, window w;  *)
(* windowed, block-wise (two windows alternating) and leaking retention.        *)
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Ks, Cs, Ws, Step
VARIABLES cfg, st, hist
S == INSTANCE Memory
Cfgs == { [n0 |-> 4 * w, w |-> w, k |-> k, c |-> c, kind |-> t] : w \in Ws, k \in Ks, c \in Cs, t \in {"window", "block", "leak"} }
Size(c, n) == c.k + c.c * (CASE c.kind = "window" -> MinI(n, c.w)
                             [] c.kind = "block"  -> MinI(n, c.w + (n % c.w))
                             [] OTHER -> n)
Ops(c, s, h) == { [op |-> "sample", n |-> s.n + Step, size |-> Size(c, s.n + Step)] }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
Next1 == CHOOSE o \in Ops(cfg, st, hist) : TRUE
\* bounded components are never reported
NoFalseAlarm == cfg.kind # "leak" => S!Verdict(st, Next1) = ""
\* a leak is reported by the horizon at the latest
Detects == (cfg.kind = "leak" /\ st.n > cfg.n0 /\ st.n + Step >= S!Horizon(cfg.n0, st.early) + Step) => S!Verdict(st, Next1) # ""
==============================================================================
