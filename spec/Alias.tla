-------------------------------- MODULE Alias --------------------------------
(* Instances are held by value.  The caller owns buffers (rows of arrays) and   *)
(* may overwrite them at any time; a component that was fitted with a buffer    *)
(* has learned the value the buffer had at that moment.  buf[b] is the token of *)
(* the current content of buffer b, obj[o].h the values object o was fitted     *)
(* with (reads count as well for the components with e.rm), memo the answers    *)
(* given so far.                                                                *)
(*   new     object o of identity id                                            *)
(*   write   the caller overwrites buffer b with value x                        *)
(*   fit     object o is fitted with the n buffers from b on, in this order     *)
(*   read    object o answers a question about the content of buffer b          *)
(*   scrub   the caller overwrites an array that is no buffer: a result it was  *)
(*           given earlier, or the arrays it passed to a constructor            *)
EXTENDS Util

Init(cfg) == [buf |-> [b \in 1..cfg.nbuf |-> 0],
              obj |-> [o \in 1..cfg.nobj |-> [id |-> -1, h |-> <<>>]],
              memo |-> <<>>]

Values(st, b, n) == [i \in 1..n |-> st.buf[b + i - 1]]
Asked(st, e) == st.buf[e.b]
Key(st, e) == <<st.obj[e.o].id, st.obj[e.o].h, e.call, Asked(st, e)>>

RECURSIVE Lookup(_, _, _)
Lookup(memo, key, i) == IF i > Len(memo) THEN 0 ELSE IF memo[i][1] = key THEN memo[i][2] ELSE Lookup(memo, key, i + 1)

Apply(st, e) ==
  CASE e.op = "new"   -> [st EXCEPT !.obj[e.o] = [id |-> e.id, h |-> <<>>]]
    [] e.op = "write" -> [st EXCEPT !.buf[e.b] = e.x]
    [] e.op = "fit"   -> [st EXCEPT !.obj[e.o].h = @ \o Values(st, e.b, e.n)]
    [] e.op = "read"  -> [st EXCEPT !.obj[e.o].h = IF e.rm THEN Append(@, -Asked(st, e)) ELSE @,
                                    !.memo = IF Lookup(@, Key(st, e), 1) = 0 THEN Append(@, <<Key(st, e), e.out>>) ELSE @]
    [] OTHER -> st

Verdict(st, e) ==
  CASE e.k # "ok" -> e.op \o "-" \o e.k
    [] e.op = "read" -> LET prev == Lookup(st.memo, Key(st, e), 1) IN
                        IF prev = 0 \/ prev = e.out THEN "" ELSE "result-depends-on-an-array-the-caller-changed-later"
    [] OTHER -> ""
=============================================================================
