------------------------------ MODULE MC_Layout ------------------------------
(* All views of one row (width Wd) or a few rows into a small memory, for all   *)
(* interleavings of fits and reads; what reads through the strides is accepted, *)
(* what takes the next cells instead is rejected exactly when these differ.     *)
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Wd, MaxRows, Strides
VARIABLES cfg, st, hist
S == INSTANCE Layout
Mems == { << <<1, 2, 2, 1, 2>> >> , << <<1, 2, 1, 1, 1>> >> }
Cfgs == { [nobj |-> 2, mem |-> m] : m \in Mems }
Fits(v, c) == \A i \in {0, v.r - 1}, j \in {0, v.w - 1} :
                LET k == v.off + i * v.rs + j * v.cs IN k >= 1 /\ k <= Len(c.mem[1])
Views(c) == { v \in [blk : {1}, off : 1..5, r : 1..MaxRows, w : {Wd}, rs : Strides, cs : Strides] :
                /\ Fits(v, c) /\ (v.r = 1 => v.rs = 1) /\ (v.w = 1 => v.cs = 1) }
None == [blk |-> 1, off |-> 1, r |-> 0, w |-> Wd, rs |-> 1, cs |-> 1]
SetUp(c) == LET a == S!Apply(S!Init(c), [op |-> "new", o |-> 1, id |-> 1, v |-> None])
            IN S!Apply(a, [op |-> "new", o |-> 2, id |-> 1, v |-> None])
RECURSIVE Enc(_)
Enc(h) == IF h = <<>> THEN 0 ELSE Enc(Tail(h)) * 7 + Head(h) + 1
RECURSIVE EncRow(_)
EncRow(r) == IF r = <<>> THEN 0 ELSE EncRow(Tail(r)) * 3 + Head(r)
Answer(h, row) == Enc(h) * 100 + EncRow(row)
Strided(s, c, o, v) == [i \in 1..v.r |-> Answer(s.obj[o].h, S!Row(c, v, i - 1))]
\* what one would say that looks at the w cells from the first element on
Flat(v) == [v EXCEPT !.cs = 1]
Raw == [op |-> "", o |-> 1, id |-> 1, v |-> None, call |-> "score", out |-> <<>>, k |-> "ok", kept |-> TRUE, rm |-> FALSE]
Ops(c, s, h) ==
       { [Raw EXCEPT !.op = "fit", !.o = o, !.v = v] : o \in 1..2, v \in Views(c) }
  \cup { [Raw EXCEPT !.op = "read", !.o = o, !.v = v, !.out = Strided(s, c, o, v)] : o \in 1..2, v \in Views(c) }
INSTANCE MCBase WITH SInit <- SetUp, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
Accepts == \A e \in Ops(cfg, st, hist) : S!Verdict(st, e) = ""
\* the history is made of the values, however they were reached
FitOf(v) == [Raw EXCEPT !.op = "fit", !.v = v]
ByValue == \A v, u \in Views(cfg) :
  S!Rows(cfg, v) = S!Rows(cfg, u) => S!Apply(st, FitOf(v)).obj[1].h = S!Apply(st, FitOf(u)).obj[1].h
\* an answer that ignores the strides is rejected iff the question was answered before and the cells differ
Ignores == \A e \in Ops(cfg, st, hist) :
  (e.op = "read" /\ e.v.r = 1 /\ Fits(Flat(e.v), cfg) /\ S!Apply(st, e).memo = st.memo) =>
     (S!Verdict(st, [e EXCEPT !.out = Strided(st, cfg, e.o, Flat(e.v))]) = "") <=> S!Row(cfg, e.v, 0) = S!Row(cfg, Flat(e.v), 0)
Rejects == \A e \in Ops(cfg, st, hist) :
  (e.op = "read") => S!Verdict(st, [e EXCEPT !.out = Append(@, 0)]) # ""
==============================================================================
