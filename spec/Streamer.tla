------------------------------ MODULE Streamer ------------------------------
(* ArrayStreamer, PandasStreamer and Data.get_iterator: several iterators at   *)
(* once over the same or different data, with other users of the random        *)
(* generator in between.  Rows are identified by content: row class c is the   *)
(* first index that holds the same values, pair class the first index that     *)
(* holds the same values and the same label, so repeated instances are counted *)
(* rather than excluded.  memo[key] is the order a (data, seed) pair has shown *)
(* so far.                                                                     *)
EXTENDS Util

NoIt == [open |-> FALSE, n |-> 0, y |-> 0 - 1, shuffle |-> FALSE, key |-> 0, rows |-> <<>>, pairs |-> <<>>,
         rleft |-> <<>>, pleft |-> <<>>, got |-> <<>>, dead |-> FALSE]
Init(cfg) == [its |-> [i \in 1..cfg.its |-> NoIt], memo |-> [k \in 1..cfg.keys |-> <<>>]]

\* how many instances of every class (classes are 0-based indices)
Counts(cls) == FoldLeft(LAMBDA a, c : [a EXCEPT ![c + 1] = @ + 1], [i \in 1..Len(cls) |-> 0], cls)
Opened(e) == [open |-> TRUE, n |-> e.n, y |-> e.y, shuffle |-> e.shuffle, key |-> e.key, rows |-> e.rows, pairs |-> e.pairs,
              rleft |-> Counts(e.rows), pleft |-> Counts(e.pairs), got |-> <<>>, dead |-> FALSE]
Labelled(it) == it.y >= 0
Deliver(st, e) ==
  LET it == st.its[e.it]
      g  == Append(it.got, e.row)
  IN  [st EXCEPT !.its[e.it].got = g,
                 !.its[e.it].rleft[e.row + 1] = @ - 1,
                 !.its[e.it].pleft = IF Labelled(it) THEN [it.pleft EXCEPT ![e.pair + 1] = @ - 1] ELSE it.pleft,
                 !.memo = IF it.key > 0 /\ Len(g) > Len(st.memo[it.key]) THEN [st.memo EXCEPT ![it.key] = g] ELSE st.memo]
Apply(st, e) == CASE e.op = "open" -> [st EXCEPT !.its[e.it] = Opened(e)]
                  [] e.op = "next" /\ e.r.k = "item" -> Deliver(st, e)
                  [] e.op = "next" /\ e.r.k = "exc" -> [st EXCEPT !.its[e.it].dead = TRUE]
                  [] OTHER -> st

Mismatch(it) == it.y >= 0 /\ it.y # it.n
Fresh(it, row) == row \in 0..(it.n - 1) /\ it.rleft[row + 1] > 0
Orderly(it, row) == it.shuffle \/ row = it.rows[Len(it.got) + 1]
OwnLabel(it, e) == Labelled(it) =>
                     /\ e.pair \in 0..(it.n - 1) /\ it.pleft[e.pair + 1] > 0
                     /\ (it.shuffle \/ e.pair = it.pairs[Len(it.got) + 1])
Determined(st, it, row) == it.key = 0 \/ LET p == Len(it.got) + 1 IN Len(st.memo[it.key]) < p \/ st.memo[it.key][p] = row

Next(st, e) ==
  LET it == st.its[e.it] IN
  IF it.dead THEN ""                       \* already rejected
  ELSE IF Mismatch(it) THEN IF e.r.k = "exc" THEN "" ELSE "different-lengths-rejected"
  ELSE IF Len(it.got) = it.n THEN IF e.r.k = "stop" THEN "" ELSE "ends-after-the-last-instance"
  ELSE IF e.r.k # "item" THEN "every-instance-delivered"
  ELSE IF ~Fresh(it, e.row) THEN "each-instance-exactly-once"
  ELSE IF ~Orderly(it, e.row) THEN "given-order-without-shuffling"
  ELSE IF ~OwnLabel(it, e) THEN "own-label"
  ELSE IF ~Determined(st, it, e.row) THEN "order-determined-by-seed-and-data"
  ELSE ""

Verdict(st, e) ==
  CASE e.op = "open" -> IF e.r.k = "ok" \/ (e.y >= 0 /\ e.y # e.n) THEN "" ELSE "open-failed"
    [] e.op = "next" -> Next(st, e)
    [] e.op = "load" -> IF e.r.k = "ok" THEN "" ELSE "features-and-labels-of-the-file"
    [] e.op = "kept" -> IF e.ok THEN "" ELSE "input-data-not-modified"
    [] OTHER -> "unknown-event"
=============================================================================
