----------------------------- MODULE ExtremaMC -----------------------------
EXTENDS ExtremaScan
CONSTANTS MinLen, MaxLen, K
Vals == -K..K
Init == \E n \in MinLen..MaxLen : \E s \in [1..n -> Vals] : ScanInit(s)
Spec == Init /\ [][ScanNext]_vars
=============================================================================
