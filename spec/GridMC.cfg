CONSTANTS
 R = 3
 C = 3
 MaxV = 2
 Hs = {1}
SPECIFICATION Spec
INVARIANTS Below Correct Dual PeaksAreMaxima Extension
