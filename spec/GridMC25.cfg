CONSTANTS
 R = 2
 C = 5
 MaxV = 2
 Hs = {1, 2}
SPECIFICATION Spec
INVARIANTS Below Correct PeaksAreMaxima
