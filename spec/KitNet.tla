------------------------------- MODULE KitNet -------------------------------
(* pysad.models.KitNet: FM+1 instances learn the feature map (scores 0), the   *)
(* next AD instances train the autoencoders (scores move), then the network    *)
(* is frozen: the scores of fixed probe instances never change again.          *)
(* A "probe" event carries, per probe instance, whether the score was exactly  *)
(* 0, whether it was finite and >= 0, and a token identifying its value;       *)
(* units: whether a second network that was fitted with every feature in       *)
(* another unit gives the same scores.  A "far" event carries, per feature and *)
(* direction, whether moving that feature alone far outside everything fitted  *)
(* raises the score.  A "map" event shows the learned feature map: v, one       *)
(* sequence of features per autoencoder, and fam, a number per feature such     *)
(* that features with the same number are scaled copies of one another.        *)
EXTENDS Util

FM(cfg) == IF cfg.fm < 0 THEN cfg.ad ELSE cfg.fm      \* -1: not given
Init(cfg) == [fm |-> FM(cfg), ad |-> cfg.ad, moving |-> cfg.moving, m |-> MaxI(1, cfg.m), n |-> 0, v |-> <<>>, last |-> <<>>, lastn |-> 0]

Trained(st) == MaxI(0, MinI(st.n - (st.fm + 1), st.ad))
Phase(st) == IF Trained(st) = 0 THEN "grace" ELSE IF Trained(st) < st.ad THEN "training" ELSE "frozen"

Apply(st, e) == CASE e.op = "fit" -> [st EXCEPT !.n = @ + 1]
                  [] e.op = "probe" -> [st EXCEPT !.last = e.t, !.lastn = st.n]
                  [] e.op = "map" -> [st EXCEPT !.v = e.v]
                  [] OTHER -> st

\* every feature in exactly one autoencoder, none of them larger than allowed
Mapping(st, e) ==
  /\ SumSeq([a \in 1..Len(e.v) |-> Len(e.v[a])]) = Len(e.fam)
  /\ \A f \in 1..Len(e.fam) : \E a \in 1..Len(e.v) : \E j \in 1..Len(e.v[a]) : e.v[a][j] = f
  /\ \A a \in 1..Len(e.v) : Len(e.v[a]) >= 1 /\ Len(e.v[a]) <= st.m
\* features that are copies of one another share an autoencoder that has room
Family(e, f) == { g \in 1..Len(e.fam) : e.fam[g] = e.fam[f] }
Together(st, e) == \A f \in 1..Len(e.fam) :
  Cardinality(Family(e, f)) <= st.m => \E a \in 1..Len(e.v) : Family(e, f) \subseteq { e.v[a][j] : j \in 1..Len(e.v[a]) }

TrainedAt(st, n) == Trained([st EXCEPT !.n = n])
Same(st) == TrainedAt(st, st.lastn) = Trained(st)

Verdict(st, e) ==
  CASE e.op \in {"new", "fit"} -> IF e.r.k = "ok" THEN "" ELSE e.op \o "-failed"
    [] e.op = "probe" ->
         IF st.n = 0 THEN ""
         ELSE IF Phase(st) = "grace"
              THEN IF \A i \in 1..Len(e.t) : e.zero[i] THEN "" ELSE "zero-during-grace"
         ELSE IF \E i \in 1..Len(e.t) : ~e.fin[i] THEN "finite-non-negative"
         ELSE IF Trained(st) >= 2 /\ \E i \in 1..Len(e.units) : ~e.units[i] THEN "independent-of-the-units"
         ELSE IF st.last = <<>> \/ st.lastn = 0 THEN ""
         ELSE IF Same(st) THEN IF e.t = st.last THEN "" ELSE "frozen"
         ELSE IF st.moving /\ e.t = st.last THEN "training-instances-are-learned" ELSE ""
    [] e.op = "map" -> IF st.n <= st.fm THEN IF e.v = <<>> THEN "" ELSE "map-learned-too-early"
                       ELSE IF ~Mapping(st, e) THEN "every-feature-in-one-autoencoder"
                       ELSE IF st.v # <<>> /\ st.v # e.v THEN "the-map-stays"
                       ELSE IF st.n > 3 /\ st.fm >= 3 /\ ~Together(st, e) THEN "copies-share-an-autoencoder" ELSE ""
    [] e.op = "far" -> IF Phase(st) # "frozen" \/ st.ad = 0 \/ \A i \in 1..Len(e.hi) : e.hi[i] THEN "" ELSE "every-feature-counts"
    [] OTHER -> "unknown-event"
=============================================================================
