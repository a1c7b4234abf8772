------------------------------- MODULE Layout -------------------------------
(* Where an instance is stored does not matter, only its values do.  The        *)
(* caller's memory is a set of blocks of cells (cfg.mem: the token of the value *)
(* in every cell, in the order of the addresses).  An array is a view of a      *)
(* block: r rows of w elements, element j of row i in cell                      *)
(* off + i * rs + j * cs; both strides may be negative, larger than one, or     *)
(* such that the rows are not contiguous.                                       *)
(*   new   object o of identity id, constructed with the arrays of view v       *)
(*   fit   object o is fitted with the rows of view v, in this order            *)
(*   read  object o answers about the rows of v: one answer in out for each     *)
(* Every answer is a function of the identity, the values given at construction *)
(* and the values fitted.                                                       *)
EXTENDS Util

Cell(cfg, v, i, j) == cfg.mem[v.blk][v.off + i * v.rs + j * v.cs]
Row(cfg, v, i) == [j \in 1..v.w |-> Cell(cfg, v, i, j - 1)]
Rows(cfg, v) == [i \in 1..v.r |-> Row(cfg, v, i - 1)]

Init(cfg) == [cfg |-> cfg, seen |-> <<>>, obj |-> [o \in 1..cfg.nobj |-> [id |-> -1, ini |-> <<>>, h |-> <<>>]], memo |-> <<>>]

RECURSIVE IndexOf(_, _, _)
IndexOf(s, x, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = x THEN i ELSE IndexOf(s, x, i + 1)
\* rows are numbered in the order in which their values are first met
Meet(st, v) == [st EXCEPT !.seen = FoldLeft(LAMBDA s, x : IF IndexOf(s, x, 1) = 0 THEN Append(s, x) ELSE s, @, Rows(st.cfg, v))]
Names(st, v) == [i \in 1..v.r |-> IndexOf(st.seen, Row(st.cfg, v, i - 1), 1)]

Key(st, o, call, x) == <<st.obj[o].id, st.obj[o].ini, st.obj[o].h, call, x>>
RECURSIVE Lookup(_, _, _)
Lookup(memo, key, i) == IF i > Len(memo) THEN 0 ELSE IF memo[i][1] = key THEN memo[i][2] ELSE Lookup(memo, key, i + 1)

\* the rows of a read one after the other (a read may change the object: e.rm)
Step(st, e, i) ==
  LET x == IndexOf(st.seen, Row(st.cfg, e.v, i - 1), 1)
      key == Key(st, e.o, e.call, x)
  IN [st EXCEPT !.memo = IF Lookup(@, key, 1) = 0 THEN Append(@, <<key, e.out[i]>>) ELSE @,
                !.obj[e.o].h = IF e.rm THEN Append(@, -x) ELSE @]
RECURSIVE ReadUpTo(_, _, _)
ReadUpTo(st, e, k) == IF k = 0 THEN st ELSE Step(ReadUpTo(st, e, k - 1), e, k)

Apply(st0, e) ==
  LET st == Meet(st0, e.v) IN
  CASE e.op = "new"  -> [st EXCEPT !.obj[e.o] = [id |-> e.id, ini |-> Names(st, e.v), h |-> <<>>]]
    [] e.op = "fit"  -> [st EXCEPT !.obj[e.o].h = @ \o Names(st, e.v)]
    [] e.op = "read" -> ReadUpTo(st, e, Len(e.out))
    [] OTHER -> st

Same(st0, e, i) ==
  LET st == ReadUpTo(Meet(st0, e.v), e, i - 1)
      prev == Lookup(st.memo, Key(st, e.o, e.call, IndexOf(st.seen, Row(st.cfg, e.v, i - 1), 1)), 1)
  IN prev = 0 \/ prev = e.out[i]

Verdict(st, e) ==
  CASE e.k # "ok" -> e.op \o "-" \o e.k
    [] ~e.kept -> "array-of-the-caller-changed"
    [] e.op = "read" -> IF Len(e.out) # e.v.r THEN "not-one-result-per-row"
                        ELSE IF \A i \in 1..Len(e.out) : Same(st, e, i) THEN "" ELSE "result-depends-on-where-the-instance-is-stored"
    [] OTHER -> ""
=============================================================================
