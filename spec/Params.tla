------------------------------- MODULE Params --------------------------------
(* Constructing a component: parameters may be given by position (in the       *)
(* documented order), by keyword, or left out, which means their documented    *)
(* default.  However they were given, components whose parameters resolve to   *)
(* the same values answer alike after the same history.                        *)
(*   cfg.def[i]    documented default of parameter i (a value token), 0 if it  *)
(*                 has none and must be given                                  *)
(*   cfg.alias[i]  parameter i defaults to the value of this one (0: none);    *)
(*                 giving None (token cfg.none) means the same                 *)
(*   cfg.npos      how many parameters may be given by position                *)
(* Events: new (pos: tokens given by position, kw: <<parameter, token>>),      *)
(* fit (instances x .. x+n-1 of the table), read.                              *)
EXTENDS Util

Init(cfg) == [def |-> cfg.def, alias |-> cfg.alias, none |-> cfg.none, npos |-> cfg.npos,
              obj |-> [o \in 1..cfg.nobj |-> [id |-> <<>>, h |-> <<>>]], memo |-> <<>>]

KwOf(e, i) == IF \E j \in 1..Len(e.kw) : e.kw[j][1] = i
              THEN e.kw[CHOOSE j \in 1..Len(e.kw) : e.kw[j][1] = i][2] ELSE 0
Given(e, i) == IF i <= Len(e.pos) THEN e.pos[i] ELSE KwOf(e, i)

Valid(st, e) == /\ Len(e.pos) <= st.npos
                /\ \A j \in 1..Len(e.kw) : e.kw[j][1] > Len(e.pos) /\ e.kw[j][1] <= Len(st.def)
                /\ \A j, k \in 1..Len(e.kw) : j # k => e.kw[j][1] # e.kw[k][1]
                /\ \A i \in 1..Len(st.def) : st.def[i] = 0 /\ st.alias[i] = 0 => Given(e, i) # 0

RECURSIVE Value(_, _, _)
Value(st, e, i) ==
  LET g == Given(e, i) IN
  IF st.alias[i] # 0 /\ (g = 0 \/ g = st.none) THEN Value(st, e, st.alias[i])
  ELSE IF g = 0 THEN st.def[i] ELSE g
Resolve(st, e) == [i \in 1..Len(st.def) |-> Value(st, e, i)]

\* histories as runs of consecutive instances
Push(h, x, n) == IF h # <<>> /\ h[Len(h)][2] = x - 1 THEN [h EXCEPT ![Len(h)] = <<@[1], x + n - 1>>]
                 ELSE Append(h, <<x, x + n - 1>>)

Key(st, e) == LET b == st.obj[e.o] IN <<b.id, b.h, e.call, e.x>>
Lookup(memo, key) == LET H == { i \in 1..Len(memo) : memo[i][1] = key } IN IF H = {} THEN 0 ELSE memo[CHOOSE i \in H : TRUE][2]

Apply(st, e) ==
  CASE e.op = "new"  -> IF Valid(st, e) THEN [st EXCEPT !.obj[e.o] = [id |-> Resolve(st, e), h |-> <<>>]] ELSE st
    [] e.op = "fit"  -> [st EXCEPT !.obj[e.o].h = Push(@, e.x, e.n)]
    [] e.op = "read" -> LET s2 == IF Lookup(st.memo, Key(st, e)) = 0 THEN [st EXCEPT !.memo = Append(@, <<Key(st, e), e.out>>)] ELSE st
                        IN IF e.rm THEN [s2 EXCEPT !.obj[e.o].h = Append(@, <<-e.x - 2, -e.x - 2>>)] ELSE s2
    [] OTHER -> st

Verdict(st, e) ==
  CASE e.op = "new"  -> IF Valid(st, e) THEN IF e.k = "ok" THEN "" ELSE "valid-arguments-rejected"
                        ELSE IF e.k = "ok" THEN "incomplete-or-ambiguous-arguments-accepted" ELSE ""
    [] e.op = "fit"  -> IF e.k = "ok" THEN "" ELSE "fit-failed"
    [] e.op = "read" -> LET p == Lookup(st.memo, Key(st, e)) IN
                        IF p = 0 \/ p = e.out THEN "" ELSE "same-parameters-and-history-but-another-result"
    [] OTHER -> "unknown-event"
=============================================================================
