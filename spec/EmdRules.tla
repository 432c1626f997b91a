------------------------------ MODULE EmdRules ------------------------------
(* The decision rules of the decomposition, shared by the state machine (Emd)   *)
(* and by the specifications that judge recorded runs (SiftTrace, StopTrace).   *)
EXTENDS Integers, Sequences, FiniteSets

EAbs(a) == IF a < 0 THEN -a ELSE a
NearCount(e, z) == EAbs(e - z) < 2

(* three valued measurements of "x < threshold": -1 below, 0 too close to call, 1 not below *)
V3 == {"y", "e", "n"}
Lt(c) == IF c < 0 THEN "y" ELSE IF c = 0 THEN "e" ELSE "n"
Not3(a) == IF a = "y" THEN "n" ELSE IF a = "n" THEN "y" ELSE "e"
And3(a, b) == IF a = "n" \/ b = "n" THEN "n" ELSE IF a = "y" /\ b = "y" THEN "y" ELSE "e"
Or3(a, b) == IF a = "y" \/ b = "y" THEN "y" ELSE IF a = "n" /\ b = "n" THEN "n" ELSE "e"

(* Mode criterion.  c.hi: lowest upper knot against 0, c.lo: minus the highest lower knot against 0,   *)
(* c.en: energy against the negligible level, c.sv, c.sd, c.er: the three convergence measures.        *)
Criterion(c) == And3(And3(Not3(Lt(c.hi)), Not3(Lt(c.lo))),
                     And3(Not3(Lt(c.en)), Or3(Lt(c.sv), Or3(Lt(c.sd), Lt(c.er)))))
(* What is left is negligible: range or summed magnitude below its threshold *)
EndCond(d) == Or3(Lt(d.rg), Lt(d.pw))

(* ---- one sifting round under each rule ---- *)
(* consecutive rounds with matching counts; the first round never counts *)
NextNh(rule, k, nh, e, z) == IF rule = "fixeh" /\ k > 1 THEN (IF NearCount(e, z) THEN nh + 1 ELSE 0) ELSE nh
(* may / must the sifting stop after round k ? *)
Stops(rule, par, k, nh, crit, e, z) ==
  CASE rule = "fixe" -> IF k >= par THEN "y" ELSE "n"
    [] rule = "fixeh" -> IF k > 1 /\ nh >= par THEN "y" ELSE "n"
    [] rule = "default" -> IF NearCount(e, z) THEN crit ELSE "n"

(* ---- one recorded sifting ----                                                                    *)
(* m.cur0: extrema of what is sifted; m.rounds[k]: [e, z: extrema and zero crossings after round k,    *)
(* c: measurements of the mode criterion, d: end measurements if this were the component, hit: equals  *)
(* the component returned].  Outcomes: set of <<how, round, extrema count on record>>; more than one   *)
(* only where a measurement is too close to call.  "open": the record ends before a decision.          *)
Outcomes(rule, par, maxiter, ext0, m) ==
  LET RECURSIVE Go(_, _, _, _)
      Go(k, nh, cur, ext) ==
        IF k >= maxiter THEN {<<"close", k - 1, ext>>}
        ELSE IF cur <= 2 THEN {<<"trend", k - 1, cur>>}
        ELSE IF k > Len(m.rounds) THEN {<<"open", k - 1, ext>>}
        ELSE LET R == m.rounds[k]
                 nh2 == NextNh(rule, k, nh, R.e, R.z)
                 x == IF rule = "fixe" THEN cur ELSE R.e
                 st == Stops(rule, par, k, nh2, IF rule = "default" THEN Criterion(R.c) ELSE "n", R.e, R.z)
             IN (IF st # "n" THEN {<<"close", k, x>>} ELSE {})
                \cup (IF st # "y" THEN Go(k + 1, nh2, R.e, x) ELSE {})
  IN Go(1, 0, m.cur0, ext0)
=============================================================================
