------------------------------ MODULE CompactMC ------------------------------
(* The equations determine the order: polynomials up to the stated degree with  *)
(* their exact derivative (or themselves) solve them, at every length and place.*)
EXTENDS Compact
VARIABLES n, d, o, p
Pw(b, e) == LET F[j \in 0..e] == IF j = 0 THEN 1 ELSE b * F[j - 1] IN F[e]
Init == n \in 6..9 /\ d \in 0..5 /\ o \in -9..2 /\ p \in -4..4
Next == UNCHANGED <<n, d, o, p>>
Spec == Init /\ [][Next]_<<n, d, o, p>>
V == TLCEval([j \in 1..n |-> Pw(j + o, d)])
DV == TLCEval([j \in 1..n |-> IF d = 0 THEN 0 ELSE d * Pw(j + o, d - 1)])
Alt == TLCEval([j \in 1..n |-> IF j % 2 = 0 THEN 1 ELSE -1])
Zero == [j \in 1..n |-> 0]
Exact == \A i \in 1..n : DRes(V, DV, i, 1) = 0
Passes == \A i \in 1..n : (d <= 3 \/ i \in 4..n - 3) => FRes(V, V, i, p, 1) = 0
Blocks == \A i \in 1..n : FRes(Alt, Zero, i, p, 1) = 0
Neutral == \A j \in 4..n - 3 : FRes([k \in 1..n |-> IF k = j THEN 1 ELSE 0], [k \in 1..n |-> IF k = j THEN 1 ELSE 0], j, 4, 1) = 0
(* not more: degree six is not exact, so the equations are not vacuous *)
ASSUME \E i \in 1..9 : DI([j \in 1..9 |-> Pw(j, 7)], [j \in 1..9 |-> 7 * Pw(j, 6)], 5, 1) # 0
=============================================================================
