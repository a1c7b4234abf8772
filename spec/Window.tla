------------------------------- MODULE Window -------------------------------
(* pysad.utils.window: Window (cfg.size >= 1) and UnlimitedWindow (size = 0). *)
(* Items are opaque tokens (integers).                                        *)
EXTENDS Util

Init(cfg) == [size |-> cfg.size, win |-> <<>>]

Apply(st, e) ==
  IF e.op = "update"
  THEN LET w == Append(st.win, e.x)
       IN  [st EXCEPT !.win = IF st.size > 0 /\ Len(w) > st.size THEN Tail(w) ELSE w]
  ELSE st

Verdict(st, e) ==
  CASE e.op = "new"    -> IF e.r.k = "ok" THEN "" ELSE "construction-failed"
    [] e.op = "update" -> IF e.r.k = "ok" THEN "" ELSE "update-failed"
    [] e.op = "get"    -> IF e.r.k # "ok" THEN "get-failed"
                          ELSE IF e.items = st.win THEN "" ELSE "window-contents"
    [] OTHER           -> "unknown-event"

\* Declarative: what the window must hold after the history h of operations.
Added(h) == LET u == SelectSeq(h, LAMBDA o : o.op = "update")
            IN  [i \in 1..Len(u) |-> u[i].x]
Contents(size, h) == IF size > 0 THEN Suffix(Added(h), size) ELSE Added(h)
=============================================================================
