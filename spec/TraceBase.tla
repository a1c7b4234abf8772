------------------------------ MODULE TraceBase ------------------------------
(* Generic trace validation.  A trace file is a JSON array of traces          *)
(* [id, cfg, ev]; every trace is an independent behaviour, selected by tid.   *)
(* SInit / SApply are the component specification's own initial state and     *)
(* transition operators; SVerdict(st, e) is "" when the recorded result of    *)
(* event e is one the specification allows in state st, and otherwise the     *)
(* name of the violated clause.  All events are consumed: the number of       *)
(* distinct states TLC reports must equal SUM(Len(ev)+1).                     *)
(* Long traces are consumed in blocks: an event [op |-> "bulk", evs |-> ...]  *)
(* stands for its events taken one after the other, with one TLC state per    *)
(* block instead of one per event.                                            *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Traces, SInit(_), SApply(_, _), SVerdict(_, _)
VARIABLES tid, l, st, bad

TInit == /\ tid \in 1..Len(Traces)
         /\ l = 1
         /\ st = SInit(Traces[tid].cfg)
         /\ bad = ""

Step(r, e) ==
  IF r.bad # "" THEN r
  ELSE LET b == SVerdict(r.st, e) IN
       IF b # "" THEN [st |-> r.st, bad |-> b, at |-> r.at + 1]
       ELSE [st |-> SApply(r.st, e), bad |-> "", at |-> r.at + 1]

TNext == /\ bad = ""
         /\ l <= Len(Traces[tid].ev)
         /\ LET e == Traces[tid].ev[l]
                r == IF "evs" \in DOMAIN e THEN FoldLeft(Step, [st |-> st, bad |-> "", at |-> 0], e.evs)
                                      ELSE Step([st |-> st, bad |-> "", at |-> 0], e) IN
              /\ bad' = r.bad
              /\ st' = r.st
              /\ (r.bad # "" => PrintT(<<"VIOLATED", Traces[tid].id, l, r.at, r.bad>>))
         /\ l' = l + 1
         /\ tid' = tid

TraceOK == bad = ""
=============================================================================
