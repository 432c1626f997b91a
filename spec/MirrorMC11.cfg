CONSTANTS N = 11
 NB = 4
SPECIFICATION Spec
INVARIANT Inv
