------------------------------- MODULE Bounds -------------------------------
(* pysad.utils.get_minmax_array / get_minmax_scalar: the exact least and        *)
(* greatest value per feature / overall, of the array given and nothing else.   *)
EXTENDS Util
Init(cfg) == [calls |-> 0]
Apply(st, e) == [st EXCEPT !.calls = @ + 1]

Col(rows, j) == [i \in 1..Len(rows) |-> rows[i][j]]
Mins(rows) == [j \in 1..Len(rows[1]) |-> MinSeq(Col(rows, j))]
Maxs(rows) == [j \in 1..Len(rows[1]) |-> MaxSeq(Col(rows, j))]

Verdict(st, e) ==
  CASE e.r.k # "ok" -> "call-failed"
    [] ~e.kept -> "array-of-the-caller-modified"
    [] e.op = "array" -> IF e.lo = Mins(e.rows) THEN IF e.hi = Maxs(e.rows) THEN "" ELSE "greatest-value-of-every-feature"
                         ELSE "least-value-of-every-feature"
    [] e.op = "scalar" -> IF e.lo = <<MinSeq(Mins(e.rows))>> THEN IF e.hi = <<MaxSeq(Maxs(e.rows))>> THEN "" ELSE "greatest-value"
                          ELSE "least-value"
    [] OTHER -> "unknown-event"
=============================================================================
