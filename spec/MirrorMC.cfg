CONSTANTS N = 8
 NB = 3
SPECIFICATION Spec
INVARIANT Inv
