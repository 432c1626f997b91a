---------------------------- MODULE CeemdanRules ----------------------------
(* When CEEMDAN stops; shared by the state machine and by the judgement of      *)
(* recorded runs.  Measurements are three valued (see EmdRules).                *)
EXTENDS EmdRules
(* what is left after some stage: one: decomposes into itself; rg, pw: range and summed magnitude, both of the     *)
(* signal scaled to unit deviation, against their thresholds                                                         *)
Over(d) == Or3(d.one, Or3(Lt(d.rg), Lt(d.pw)))
CStops(limit, modes, over) == IF limit > 0 /\ modes >= limit THEN "y" ELSE over
=============================================================================
