----------------------------- MODULE ImageRules -----------------------------
(* Stopping rules of the two dimensional variants.                              *)
EXTENDS EmdRules
(* measurements against their thresholds (-1 below, 0 too close, 1 not below):      *)
(* me: swing of the mean surface, ch: change of the candidate beyond what counts as *)
(* none, ab: mean magnitude, ms: mean square                                        *)
Proto(which, c) == LET x == Or3(Lt(c.me), Or3(Lt(c.ch), Lt(c.ab)))
                   IN IF which = "EMD2D" THEN Or3(x, Lt(c.ms)) ELSE x
(* One recorded sifting.  m.few[k]: before round k there are not enough minima or maxima; m.c[k]: measurements   *)
(* after round k.  Result: set of possible <<number of rounds, reason>>.                                          *)
Rounds(which, rule, par, cap, m) ==
  LET RECURSIVE Go(_, _)
      Go(k, nh) ==
        IF k > cap \/ k > Len(m.few) THEN {<<k - 1, "cap">>}
        ELSE IF m.few[k] THEN {<<k - 1, "few">>}
        ELSE IF rule = "fixe" THEN (IF k >= par + 1 THEN {<<k, "rule">>} ELSE Go(k + 1, nh))
        ELSE LET p == Proto(which, m.c[k])
                 yes == IF rule = "default" THEN {<<k, "rule">>}
                        ELSE IF nh + 1 >= par THEN {<<k, "rule">>} ELSE Go(k + 1, nh + 1)
                 no == Go(k + 1, 0)
             IN IF rule = "fixeh" /\ k = 1 THEN Go(2, 0)
                ELSE (IF p # "n" THEN yes ELSE {}) \cup (IF p # "y" THEN no ELSE {})
  IN Go(1, 0)
(* The whole run: r.modes[j] the sifting of row j (hit[n+1]: row j is the candidate after n rounds), r.modes[j].end  *)
(* whether the first j rows make up the image, r.rest[j] whether the rest after them is negligible.  The plain      *)
(* variant also ends after a row that ran out of extrema.                                                           *)
RowsByRule(r) ==
  LET K == Len(r.modes)
      Fits(j) == {w[2] : w \in {v \in Rounds(r.which, r.rule, r.par, r.cap, r.modes[j]) : r.modes[j].hit[v[1] + 1]}}
      AtLimit(j) == r.limit > 0 /\ j >= r.limit
      Ends(j) == Fits(j) # {} /\ (r.modes[j].end # "n" \/ AtLimit(j) \/ (r.which = "EMD2D" /\ "few" \in Fits(j)))
      On(j) == r.modes[j].end # "y" /\ ~AtLimit(j) /\ (IF r.which = "EMD2D" THEN Fits(j) \ {"few"} ELSE Fits(j)) # {}
      Whole == Ends(K) /\ r.rest[K] # "n" /\ \A j \in 1..(K - 1) : On(j)
      WithRest == K >= 2 /\ Ends(K - 1) /\ r.rest[K - 1] # "y" /\ r.lastisrest /\ \A j \in 1..(K - 2) : On(j)
  IN Whole \/ WithRest
=============================================================================
