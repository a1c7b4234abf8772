------------------------------- MODULE MCBase -------------------------------
(* Generic bounded exploration of a component specification: every history    *)
(* of at most MaxLen operations, for every configuration in Cfgs.  Complete   *)
(* histories (or histories with no further operation) can be emitted as JSON  *)
(* scenarios which the harness replays into the real code.                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS SInit(_), SApply(_, _), Cfgs, Ops(_, _, _), MaxLen, EmitScn
VARIABLES cfg, st, hist

MInit == cfg \in Cfgs /\ st = SInit(cfg) /\ hist = <<>>

MNext == /\ Len(hist) < MaxLen
         /\ \E o \in Ops(cfg, st, hist) :
              /\ st' = SApply(st, o)
              /\ hist' = Append(hist, o)
         /\ UNCHANGED cfg

Emit == (EmitScn /\ Len(hist) = MaxLen) =>
          PrintT("SCN " \o ToJson([cfg |-> cfg, ops |-> hist]))
=============================================================================
