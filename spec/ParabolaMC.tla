----------------------------- MODULE ParabolaMC -----------------------------
(* Enumerates all triples in a bounded domain (one state each). *)
EXTENDS Parabola
CONSTANTS H, D
VARIABLE x
Init == x \in [hl : 1..H, hr : 1..H, dl : -D..D, dr : -D..D, t0 : {0}, s0 : {0}]
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x
Inv == SlopeRule(x) /\ Interpolates(x) /\ Stationary(x)
=============================================================================
