----------------------------- MODULE MatlabRules -----------------------------
(* The MATLAB compatible variant.  Unlike Emd, round 0 is the input of the      *)
(* sifting itself, the criterion looks at the envelope mean of the present      *)
(* candidate, and a candidate that can no longer be sifted is still a component.*)
EXTENDS EmdRules
(* c.fr: share of samples with |mean| / amplitude above the low bound, against the tolerated share;     *)
(* c.bg: largest |mean| / amplitude against the high bound.  "below or equal" counts as tolerated.      *)
MCriterion(c, e) == IF e > 2 THEN And3(Lt(c.fr), Lt(c.bg)) ELSE "n"
MNextNh(rule, k, nh, e, z) == IF rule = "fixeh" /\ k > 0 THEN (IF NearCount(e, z) THEN nh + 1 ELSE 0) ELSE nh
MStops(rule, par, k, nh, crit, e, z) ==
  CASE rule = "fixe" -> IF k >= par THEN "y" ELSE "n"
    [] rule = "fixeh" -> IF k > 0 /\ nh >= par THEN "y" ELSE "n"
    [] rule = "default" -> IF NearCount(e, z) THEN crit ELSE "n"
(* m.rounds[k + 1] describes the candidate after k subtractions.  Outcomes <<how, k>>:                  *)
(* last: cannot be sifted at all, ends the decomposition; flat: too few extrema after k >= 1;            *)
(* rule: stopped by the rule; cap: by the iteration maximum; open: record too short.                     *)
MOutcomes(rule, par, cap, m) ==
  LET RECURSIVE Go(_, _)
      Go(k, nh) ==
        IF k + 1 > Len(m.rounds) THEN {<<"open", k>>}
        ELSE LET R == m.rounds[k + 1] IN
             IF R.e <= 2 THEN {<<IF k = 0 THEN "last" ELSE "flat", k>>}
             ELSE IF k >= cap THEN {<<"cap", k>>}
             ELSE LET nh2 == MNextNh(rule, k, nh, R.e, R.z)
                      st == MStops(rule, par, k, nh2, IF rule = "default" THEN MCriterion(R.c, R.e) ELSE "n", R.e, R.z)
                  IN (IF st # "n" THEN {<<"rule", k>>} ELSE {}) \cup (IF st # "y" THEN Go(k + 1, nh2) ELSE {})
  IN Go(0, 0)
=============================================================================
