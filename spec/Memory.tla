------------------------------- MODULE Memory -------------------------------
(* The memory reachable from a streaming component (number of stored slots),   *)
(* sampled while a stream of ever new instances is fitted and scored.  After   *)
(* cfg.n0 instances, enough to fill every window several times, it may no      *)
(* longer grow with the stream: each later sample stays within 20% plus Slack  *)
(* of the largest early one.                                                   *)
EXTENDS Util
Slack == 100
Init(cfg) == [n0 |-> cfg.n0, n |-> 0, early |-> 0]
Limit(st) == (st.early * 12) \div 10 + Slack
Apply(st, e) == IF e.op # "sample" THEN st
                ELSE [st EXCEPT !.n = e.n, !.early = IF e.n <= st.n0 THEN MaxI(@, e.size) ELSE @]
Verdict(st, e) ==
  CASE e.op = "failed" -> "operation-failed-in-a-long-stream"
    [] e.op = "sample" /\ e.n < st.n -> "unordered-samples"
    [] e.op = "sample" /\ e.n > st.n0 /\ e.size > Limit(st) -> "memory-grows-with-the-stream"
    [] OTHER -> ""
\* length of stream that exposes a leak of one slot per instance, given the early maximum
Horizon(n0, early) == n0 + early \div 5 + Slack + 2
=============================================================================
