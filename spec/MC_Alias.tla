------------------------------ MODULE MC_Alias -------------------------------
(* Components that hold values and components that hold references, under all   *)
(* interleavings of writes, fits and reads.                                     *)
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Toks, NB
VARIABLES cfg, st, hist
S == INSTANCE Alias
Cfgs == { [nobj |-> 2, nbuf |-> NB, same |-> s] : s \in BOOLEAN }
SetUp(c) ==
  LET a == S!Apply(S!Init(c), [op |-> "new", o |-> 1, id |-> 1])
      b == S!Apply(a, [op |-> "new", o |-> 2, id |-> IF c.same THEN 1 ELSE 2])
  IN [b EXCEPT !.buf = [i \in 1..NB |-> 1]]
RECURSIVE Enc(_)
Enc(h) == IF h = <<>> THEN 0 ELSE Enc(Tail(h)) * 7 + Head(h) + 1
Answer(id, h, x) == id * 1000000 + Enc(h) * 10 + x
\* a component that keeps values, and what one that keeps references would say
Ideal(s, o, b) == Answer(s.obj[o].id, s.obj[o].h, s.buf[b])
RECURSIVE Refs(_, _)
Refs(h, o) == IF h = <<>> THEN <<>>
              ELSE (IF Head(h).op = "fit" /\ Head(h).o = o THEN [i \in 1..Head(h).n |-> Head(h).b + i - 1] ELSE <<>>) \o Refs(Tail(h), o)
Now(s, r) == [i \in 1..Len(r) |-> s.buf[r[i]]]
Raw == [op |-> "", o |-> 1, b |-> 1, n |-> 1, x |-> 0, id |-> 0, call |-> "score", out |-> 0, k |-> "ok", rm |-> FALSE]
Ops(c, s, h) ==
       { [Raw EXCEPT !.op = "write", !.b = b, !.x = x] : b \in 1..NB, x \in Toks }
  \cup { [Raw EXCEPT !.op = "fit", !.o = o, !.b = b] : o \in 1..2, b \in 1..NB }
  \cup { [Raw EXCEPT !.op = "fit", !.o = o, !.n = NB] : o \in 1..2 }
  \cup { [Raw EXCEPT !.op = "read", !.o = o, !.b = b, !.out = Ideal(s, o, b)] : o \in 1..2, b \in 1..NB }
INSTANCE MCBase WITH SInit <- SetUp, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
Accepts == \A e \in Ops(cfg, st, hist) : S!Verdict(st, e) = ""
\* the history of an object is what the buffers held when they were fitted
RECURSIVE Replay(_, _, _)
Replay(h, buf, o) ==
  IF h = <<>> THEN <<>>
  ELSE LET e == Head(h) IN
       CASE e.op = "write" -> Replay(Tail(h), [buf EXCEPT ![e.b] = e.x], o)
         [] e.op = "fit" /\ e.o = o -> [i \in 1..e.n |-> buf[e.b + i - 1]] \o Replay(Tail(h), buf, o)
         [] OTHER -> Replay(Tail(h), buf, o)
ByValue == \A o \in 1..2 : st.obj[o].h = Replay(hist, [i \in 1..NB |-> 1], o)
\* writing changes no object
WritesAreHarmless == \A e \in Ops(cfg, st, hist) : e.op = "write" => S!Apply(st, e).obj = st.obj
\* an object that kept references is rejected as soon as it is asked something
\* that was answered before and its buffers no longer hold what it was fitted with
References == \A e \in Ops(cfg, st, hist) :
  (e.op = "read" /\ S!Lookup(st.memo, S!Key(st, e), 1) # 0) =>
    LET now == Now(st, Refs(hist, e.o)) IN
      (S!Verdict(st, [e EXCEPT !.out = Answer(st.obj[e.o].id, now, st.buf[e.b])]) = "") <=> now = st.obj[e.o].h
=============================================================================
