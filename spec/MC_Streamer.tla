---------------------------- MODULE MC_Streamer ----------------------------
(* Two iterators, any interleaving; the rows a correct streamer may deliver    *)
(* are exactly those the verdict accepts.                                      *)
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Ns
VARIABLES cfg, st, hist
S == INSTANCE Streamer
\* row class vectors of length n: distinct, first two equal, all equal
Classes(n) == { [i \in 1..n |-> i - 1], [i \in 1..n |-> IF i = 2 THEN 0 ELSE i - 1], [i \in 1..n |-> 0] }
Coarser(p, r) == \A i, j \in 1..Len(p) : p[i] = p[j] => r[i] = r[j]
Cfgs == UNION { { [its |-> 2, keys |-> 1, n |-> n, shuffle |-> s, rows |-> r, pairs |-> p] :
                    s \in BOOLEAN, r \in Classes(n), p \in Classes(n) } : n \in Ns }
Good == { c \in Cfgs : Coarser(c.pairs, c.rows) }
K(k) == [k |-> k, v |-> 0, t |-> ""]
Try(i, row, pair) == [op |-> "next", it |-> i, row |-> row, pair |-> pair, r |-> K("item")]
Ops(c, s, h) ==
  { [op |-> "open", it |-> i, n |-> c.n, y |-> c.n, shuffle |-> c.shuffle, key |-> IF c.shuffle THEN 1 ELSE 0,
     rows |-> c.rows, pairs |-> c.pairs, r |-> K("ok")] : i \in { j \in 1..2 : ~s.its[j].open } }
  \cup { o \in { Try(i, c.rows[k], c.pairs[k]) : i \in { j \in 1..2 : s.its[j].open }, k \in 1..c.n } : S!Verdict(s, o) = "" }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Good, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
Times(s, x) == Cardinality({ i \in 1..Len(s) : s[i] = x })
Perm == \A i \in 1..2 : LET g == st.its[i].got IN
          /\ \A c \in 0..(cfg.n - 1) : Times(g, c) <= Times(cfg.rows, c)
          /\ (st.its[i].open /\ Len(g) = cfg.n) => \A c \in 0..(cfg.n - 1) : Times(g, c) = Times(cfg.rows, c)
          /\ (~cfg.shuffle => g = SubSeq(cfg.rows, 1, Len(g)))
Agree == cfg.shuffle => LET a == st.its[1].got  b == st.its[2].got IN \A p \in 1..MinI(Len(a), Len(b)) : a[p] = b[p]
\* a correct continuation always exists unless the other iterator committed the key's labels differently
Progress == \A i \in 1..2 : st.its[i].open /\ Len(st.its[i].got) < cfg.n =>
              \E k \in 1..cfg.n : S!Verdict(st, Try(i, cfg.rows[k], cfg.pairs[k])) = ""
==============================================================================
