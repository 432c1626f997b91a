CONSTANTS
 R = 3
 C = 3
 MaxV = 2
 Hs = {2}
SPECIFICATION Spec
INVARIANTS Below Correct Dual PeaksAreMaxima
