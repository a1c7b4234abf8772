------------------------------ MODULE MC_Params ------------------------------
(* A constructor that binds arguments one after the other (by position, then by *)
(* keyword, then defaults), against the declarative meaning of a call.  Three   *)
(* parameters: one that must be given, one with a default, one that defaults to *)
(* another's value or has a default of its own.  Tokens: 1, 2 values; 3 None.   *)
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Toks
VARIABLES cfg, st, hist
S == INSTANCE Params
Cfgs == { [nobj |-> 2, def |-> <<0, 1, IF a = 0 THEN 2 ELSE 0>>, alias |-> <<0, 0, a>>, none |-> 3, npos |-> p] : a \in {0, 2}, p \in {2, 3} }
N == 3
Vals(c, i) == {1, 2} \cup (IF c.alias[i] # 0 THEN {3} ELSE {})
\* every way of writing a call: a prefix by position, of the rest a subset by keyword
RECURSIVE Tuples(_, _, _)
Tuples(c, a, b) == IF a > b THEN { <<>> } ELSE { <<v>> \o t : v \in Vals(c, a), t \in Tuples(c, a + 1, b) }
RECURSIVE Kws(_, _)
Kws(c, a) == IF a > N THEN { <<>> } ELSE UNION { { t } \cup { <<<<a, v>>>> \o t : v \in Vals(c, a) } : t \in Kws(c, a + 1) }
Manners(c) == UNION { { [pos |-> p, kw |-> k] : p \in Tuples(c, 1, n), k \in Kws(c, n + 1) } : n \in 0..N }
              \cup { [pos |-> <<1, 2>>, kw |-> <<<<1, 1>>>>] }
\* the machine
RECURSIVE BindKw(_, _)
BindKw(args, kw) == IF kw = <<>> THEN args
                    ELSE IF args[Head(kw)[1]] # 0 THEN <<>> ELSE BindKw([args EXCEPT ![Head(kw)[1]] = Head(kw)[2]], Tail(kw))
Fill(c, args) == [i \in 1..N |-> IF args[i] # 0 THEN args[i] ELSE IF c.alias[i] # 0 THEN c.none ELSE c.def[i]]
Body(c, args) == [i \in 1..N |-> IF args[i] = c.none /\ c.alias[i] # 0 THEN args[c.alias[i]] ELSE args[i]]
Construct(c, m) ==
  IF Len(m.pos) > c.npos THEN <<>>
  ELSE LET a == BindKw([i \in 1..N |-> IF i <= Len(m.pos) THEN m.pos[i] ELSE 0], m.kw)
       IN IF a = <<>> THEN <<>> ELSE LET f == Fill(c, a) IN IF \E i \in 1..N : f[i] = 0 THEN <<>> ELSE Body(c, f)
RECURSIVE Enc(_)
Enc(h) == IF h = <<>> THEN 0 ELSE Enc(Tail(h)) * 100 + Head(h)[1] * 10 + Head(h)[2]
Answer(b, x) == 1 + x + 10 * (b.id[1] + 3 * b.id[2] + 9 * b.id[3]) + 1000 * Enc(b.h)
Raw == [op |-> "", o |-> 1, pos |-> <<>>, kw |-> <<>>, x |-> 0, n |-> 1, call |-> "score", k |-> "ok", out |-> 0, rm |-> FALSE]
Nws(c, o) == { [Raw EXCEPT !.op = "new", !.o = o, !.pos = m.pos, !.kw = m.kw, !.k = IF Construct(c, m) = <<>> THEN "exc" ELSE "ok"] : m \in Manners(c) }
Ops(c, s, h) ==
  IF Len(h) < 2 THEN Nws(c, Len(h) + 1)
  ELSE UNION { IF s.obj[o].id = <<>> THEN {}
               ELSE { [Raw EXCEPT !.op = "fit", !.o = o, !.x = x] : x \in Toks }
                    \cup { [Raw EXCEPT !.op = "read", !.o = o, !.x = x, !.out = Answer(s.obj[o], x)] : x \in Toks } : o \in 1..2 }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn
Binds == \A e \in Ops(cfg, st, hist) : e.op = "new" =>
           /\ (Construct(cfg, e) # <<>>) <=> S!Valid(st, e)
           /\ S!Valid(st, e) => Construct(cfg, e) = S!Resolve(st, e)
Accepts == \A e \in Ops(cfg, st, hist) : S!Verdict(st, e) = ""
Mute == \A o \in 1..2 : st.obj[o].id = <<>> => st.obj[o].h = <<>>
\* another answer than the one given to an equal component is rejected
Sensitive == \A e \in Ops(cfg, st, hist) :
  (e.op = "read" /\ S!Lookup(st.memo, S!Key(st, e)) # 0) => S!Verdict(st, [e EXCEPT !.out = @ + 1]) # ""
=============================================================================
