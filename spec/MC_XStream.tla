----------------------------- MODULE MC_XStream -----------------------------
(* The code keeps, per level, a dictionary cell -> count for scoring and one  *)
(* for the window being filled (the same one during the first window); here   *)
(* that machine runs beside XStream for one feature and every shift.          *)
EXTENDS Util
CONSTANTS MaxLen, EmitScn, Ws, Pts, Depth
VARIABLES cfg, st, hist
S == INSTANCE XStream
Cfgs == { [w |-> w, depth |-> Depth, K |-> 1, chains |-> 1, aligned |-> FALSE, act |-> <<TRUE>>, far |-> FALSE] : w \in Ws }
\* ranges within a window must stay in {0,1,2,4,8}
Ok(s, x) == LET xs == Append([i \in 1..Len(s.win) |-> s.win[i][1]], x)
            IN  Len(xs) < s.w \/ (MaxSeq(xs) - MinSeq(xs)) \in {0, 1, 2, 4, 8}
Ops(c, s, h) == { [op |-> "fit", y |-> <<x>>] : x \in { y \in Pts : Ok(s, y) } }
INSTANCE MCBase WITH SInit <- S!Init, SApply <- S!Apply, Cfgs <- Cfgs, Ops <- Ops, MaxLen <- MaxLen, EmitScn <- EmitScn

Chain(b) == [fs |-> [d \in 1..Depth |-> 1], b |-> <<b>>]
EmptyD == [d \in 1..Depth |-> <<>>]
\* dictionaries as sequences of keys with repetition
Step(m, y) ==
  LET q   == <<m.qf * y[1]>>
      add(t) == [d \in 1..Depth |-> Append(t[d], S!Cell(Chain(m.b), q, d))]
      cur == add(m.cur)
      ref == IF m.first THEN cur ELSE m.ref
      wn  == Append(m.win, y)
  IN  IF (m.step + 1) % cfg.w = 0
      THEN [m EXCEPT !.step = @ + 1, !.first = FALSE, !.ref = cur, !.cur = EmptyD, !.win = <<>>, !.qf = S!NewQf(wn)[1]]
      ELSE [m EXCEPT !.step = @ + 1, !.ref = ref, !.cur = cur, !.win = wn]
Run(b) == FoldLeft(Step, [step |-> 0, first |-> TRUE, b |-> b, qf |-> 8, win |-> <<>>, ref |-> EmptyD, cur |-> EmptyD],
                   [i \in 1..Len(hist) |-> hist[i].y])
DictInv == \A b \in 0..3 : LET m == Run(b) IN
             \A x \in Pts : \A d \in 1..Depth :
               LET q == <<m.qf * x>> IN
               CountIf(LAMBDA k : k = S!Cell(Chain(b), q, d), m.ref[d]) = S!CountAt(Chain(b), q, d, st.ref)
\* deeper cells refine shallower ones
Refine == \A b \in 0..3 : \A x \in Pts : \A d \in 1..(Depth - 1) :
            S!CountAt(Chain(b), <<st.qf[1] * x>>, d + 1, st.ref) <= S!CountAt(Chain(b), <<st.qf[1] * x>>, d, st.ref)
==============================================================================
