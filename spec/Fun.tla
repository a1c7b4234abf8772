--------------------------------- MODULE Fun ---------------------------------
(* Every pysad component, whatever it computes, is a deterministic function of  *)
(* its construction (class, arguments, seed: the identity id) and of the       *)
(* instances that this very object was fitted with, in order.  The function    *)
(* itself is left open; memo holds the part of it observed so far.             *)
(*   win > 0   only the last win fitted instances matter, together with the    *)
(*             position in the phase-long cycle (phase = 1: no cycle)          *)
(*   win = -1  no fitted instance matters                                      *)
(*   readmut, e.rm  reads count as history (perfect model, KNN-CAD)            *)
(* Operations: new, fit, read, fr (fit then read in one call), copy (object o   *)
(* becomes a copy of object x: same identity, same history, from then on its   *)
(* own).                                                                       *)
EXTENDS Util

Init(cfg) == [win |-> cfg.win, phase |-> cfg.phase, readmut |-> cfg.readmut,
              obj |-> [o \in 1..cfg.nobj |-> [id |-> -1, n |-> 0, h |-> <<>>]],
              memo |-> <<>>]

Push(st, h, t) == CASE st.win = 0 -> Append(h, t)
                    [] st.win < 0 -> <<>>
                    [] OTHER -> Suffix(Append(h, t), st.win)
Age(st, n) == CASE st.win = 0 -> 0
                [] st.win < 0 -> 0
                [] OTHER -> IF n < st.win THEN n ELSE st.win + (n % st.phase)
Fitted(st, b, t) == [b EXCEPT !.n = @ + 1, !.h = Push(st, @, t)]
After(st, e) == IF e.op \in {"fit", "fr"} THEN Fitted(st, st.obj[e.o], e.x) ELSE st.obj[e.o]
\* what a read is allowed to depend on
Key(st, b, e) == <<b.id, Age(st, b.n), b.h, e.call, e.x>>

RECURSIVE Lookup(_, _, _)
Lookup(memo, key, i) == IF i > Len(memo) THEN 0 ELSE IF memo[i][1] = key THEN memo[i][2] ELSE Lookup(memo, key, i + 1)

ReadMark(e) == -(e.x) - 1

Apply(st, e) ==
  CASE e.op = "new" -> [st EXCEPT !.obj[e.o] = [id |-> e.id, n |-> 0, h |-> <<>>]]
    [] e.op = "copy" -> [st EXCEPT !.obj[e.o] = st.obj[e.x]]
    [] e.op = "fit" -> [st EXCEPT !.obj[e.o] = After(st, e)]
    [] e.op \in {"read", "fr"} ->
         LET b == After(st, e) key == Key(st, b, e)
             b2 == IF st.readmut \/ e.rm THEN [b EXCEPT !.h = Append(@, ReadMark(e))] ELSE b
         IN [st EXCEPT !.obj[e.o] = b2,
                       !.memo = IF Lookup(@, key, 1) = 0 THEN Append(@, <<key, e.out>>) ELSE @]
    [] OTHER -> st

Verdict(st, e) ==
  CASE e.op = "unit" -> IF e.k = "num" /\ e.x >= 0 /\ e.x < e.out THEN "" ELSE "random-score-in-unit-interval"
    [] e.k # "ok" -> e.op \o "-" \o e.k
    [] ~e.kept -> "arguments-of-the-caller-were-modified"
    [] e.op \in {"read", "fr"} ->
         LET prev == Lookup(st.memo, Key(st, After(st, e), e), 1) IN
         IF prev = 0 \/ prev = e.out THEN "" ELSE "result-depends-on-more-than-its-own-history"
    [] OTHER -> ""
=============================================================================
